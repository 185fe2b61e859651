import subprocess, sys
have = set()
for o in sys.argv[2:]:
    for l in subprocess.run(["nm", "--defined-only", o], capture_output=True, text=True).stdout.splitlines():
        have.add(l.split()[-1])
print("extern void hsim_unsupported(const char*);")
for s in open(sys.argv[1]).read().split():
    if s not in have:
        print('void %s(void){hsim_unsupported("%s");}' % (s, s))
