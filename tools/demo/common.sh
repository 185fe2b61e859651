# Shared by the demos: compiles a program against the built tree and runs it on n processes.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d /tmp/hpgemdemo.XXXXXX); trap 'rm -rf "$W"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 OMPI_MCA_btl_base_warn_component_unused=0
# build SRC EXE [_build|_build_real]
build() {
    local b=$R/${3:-_build_real} cc ld t=applications/DG-Wave_linear/LinearPotentialFlow.out
    [ "${3:-_build_real}" = _build ] && t=applications/Preprocessor/Preprocessor.out
    cc=$(ninja -C "$b" -t commands $t | grep -E '\.cpp\.o -c ' | grep -v kernel/ | tail -1 | sed -E 's/ -MD.*//; s/ -o .*//')
    ld=$(ninja -C "$b" -t commands $t | tail -1 | sed -E 's/.* -o [^ ]+ //; s/ && :.*//')
    (cd "$b" && eval "$cc -O1 -o $W/demo.o -c $D/$1" && eval "g++ $W/demo.o -o $W/$2 $ld") || { echo "demo does not compile"; exit 2; }
}
# run N SECONDS CMD...: exit code of mpirun, 124 on a hang
run() { local n=$1 s=$2; shift 2; (cd "$W" && timeout -k 5 "$s" mpirun --oversubscribe --mca btl self,vader -n "$n" "$@" </dev/null); }
