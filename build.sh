#!/bin/bash
# Builds the harness from the working tree of /repo. usage: build.sh plain|race|cli
#
# plain: the packages of /repo are instrumented by 'go tool cover' (a counter for each basic block), using an overlay, so
#        that the harness can observe how much work is done and which code is reached. Nothing in /repo is changed.
# race:  uninstrumented, with the race detector
# cli:   the command line program, uninstrumented
set -e
what=$1
. /opt/vp/env.sh
root=/verif
out=$root/build
mkdir -p "$out"
exec 9>"$out/.lock.$what"
flock 9

if [ "$what" = cli ]; then
  cd /repo
  go build -o "$out/parse.new" ./parse
  mv -f "$out/parse.new" "$out/parse"
  exit 0
fi

tmp=$(mktemp -d "$out/tmp.XXXXXX")
trap 'rm -rf "$tmp"' EXIT
ov=$tmp/overlay.json
sep=''
echo '{"Replace": {' > "$ov"
for p in parser validator pn literal json; do
  dir=/repo/$p
  reg=$tmp/${p}_zz_verif.go
  body=$tmp/${p}_body
  : > "$body"
  i=0
  if [ "$what" = plain ]; then
    for f in $(cd /repo && go list -f '{{range .GoFiles}}{{.}} {{end}}' ./$p); do
      go tool cover -mode=count -var="verifCov$i" -o "$tmp/$p.$f" "$dir/$f"
      printf '%s"%s": "%s"' "$sep" "$dir/$f" "$tmp/$p.$f" >> "$ov"
      sep=$',\n'
      echo "f(\"$p/$f\", verifCov$i.Count[:], verifCov$i.Pos[:])" >> "$body"
      i=$((i+1))
    done
  fi
  {
    echo "package $p"
    echo "// VerifCounters calls the given function with the counters of each file"
    echo "func VerifCounters(f func(file string, count, pos []uint32)) {"
    cat "$body"
    echo "}"
  } > "$reg"
  printf '%s"%s": "%s"' "$sep" "$dir/zz_verif_counters.go" "$reg" >> "$ov"
  sep=$',\n'
done
echo '}}' >> "$ov"
cd $root/harness
case $what in
  plain) go build -overlay "$ov" -o "$out/vh.new" . ; mv -f "$out/vh.new" "$out/vh" ;;
  race) go build -race -overlay "$ov" -o "$out/vhrace.new" . ; mv -f "$out/vhrace.new" "$out/vhrace" ;;
esac
