#!/bin/bash
# usage: check.sh ID [quick|thorough]   Builds Qrack's sources from the working tree of $REPO together with the harness and runs one property.
cd "$(dirname "$0")" || exit 2
id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
export REPO=${REPO:-/repo}
mkdir -p build evidence work
variant=rel
args=()
case $id in
C22) variant=san; args=(SAN="-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr,function,float-divide-by-zero,float-cast-overflow" OPT="-O1 -g1") ;;
esac
mkdir -p "${VQ_BUILD:=$PWD/build}"
out=$VQ_BUILD/$variant
( flock 9; make -s -C harness -j"$(nproc)" REPO="$REPO" OUT="$out" "${args[@]}" >"$VQ_BUILD/$variant.log" 2>&1 ) 9>"$VQ_BUILD/$variant.lock"
if [ $? -ne 0 ]; then
    tail -n 30 "$VQ_BUILD/$variant.log"
    echo "check.sh: build of $REPO with the harness failed"
    exit 2
fi
extra=()
[ "$tier" = thorough ] && extra+=(--cap "${VERIF_CAP:-3600}")
[ "$tier" = quick ] && extra+=(--cap "${VERIF_CAP:-420}")
exec "$out/vq" --prop "$id" --tier "$tier" --seed "$seed" --evidence "evidence/$id.json" --known known/findings.txt --replay-dir work/replay --workers "$(nproc)" "${extra[@]}"
