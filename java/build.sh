#!/bin/bash
# build.sh REPO OUT MODULE... : compiles the platform stand-in, the modules of the repository and the harness
set -e
repo=$1; out=$2; shift 2
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$out/proc" "$out/cls"
javac -nowarn -proc:none -d "$out/proc" "$here/proc/Proc.java"
find "$here/api" -name '*.java' > "$out/files"
echo "$here/harness/h/Mon.java" >> "$out/files"
for m in "$@"; do
  find "$repo/javascore/$m/src/main/java" -name '*.java' >> "$out/files"
  case $m in bmc) h=X;; nativecoin) h=G;; bmv/bridge) h=V;; bmv/icon) h=I;; fee-aggregation) h=H;; xcall) h=Y;; *) continue;; esac
  echo "$here/harness/h/$h.java" >> "$out/files"
done
javac -nowarn -Xlint:none -g -encoding UTF-8 -implicit:class -sourcepath "$here/harness" -processorpath "$out/proc" -processor proc.Proc -d "$out/cls" @"$out/files"
