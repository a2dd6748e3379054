#!/bin/bash
# run with cwd = a librmn source tree; exit 0 when the behaviour is right
# builds the standard-file stack of the tree with a stand-in for the App library, then runs demo.c in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
R=$PWD
work=$(mktemp -d) || exit 0
trap 'rm -rf "$work"' EXIT
cp "$here/App.h" "$here/app.F90" "$work" || exit 0
mkdir "$work/o" "$work/run"; cd "$work/o" || exit 0
I="-I$work -I$R/include -I$R/src/PUBLIC_INCLUDES -I$R/src/PUBLIC_INCLUDES/rmn -I$R/src -I$R/src/primitives -I$R/src/fstd98"
CF="-O1 -w -std=gnu99 -D_Linux_ -D_GNU_SOURCE -DLittle_Endian @CEXTRA@ $I"
FF="-O1 -w @FFLAGS@ -J$work -I$work $I"
gfortran $FF -c ../app.F90 -o app.o || exit 0
gfortran $FF -c $R/src/fstd98/convert_ip123.f90 -o f_convert_ip123.o || exit 0
gfortran $FF -c $R/src/base/moduledate.f90 -o f_moduledate.o || exit 0
{ for f in $R/src/{packers,compresseur,primitives,fstd98,base}/*.c; do echo "gcc $CF -c $f -o c_$(basename $f).o"; done
  for f in $R/src/base/*.{f,F,F90,f90} $R/src/primitives/*.{f,F,F90} $R/src/compresseur/*.[fF]* $R/src/packers/*.[fF]* $R/src/burp98_f/*.F90 $R/src/fstd98/{convip_plus.f90,hybref.f90,convip.f,fstcvt2.f}; do
    case $f in *moduledate.f90|*'*'*) ;; *) [ -f "$f" ] && echo "gfortran $FF -c $f -o f_$(basename $f).o";; esac; done; } | xargs -P 8 -I{} sh -c '{} 2>/dev/null || true'
rm -f "$work/libst.a"; ar rcs "$work/libst.a" *.o || exit 0
cd "$work/run"
gcc $CF -I"$here" -c "$here/demo.c" -o "$work/demo.o" && gfortran -o "$work/demo" "$work/demo.o" "$work/libst.a" -lm -lpthread || exit 0
timeout 120 "$work/demo"
