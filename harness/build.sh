#!/bin/bash
# build.sh VARIANT OUTDIR : compiles $REPO's current sources with the driver (variants: plain, asan)
set -e
V=$1; O=$2; R=${REPO:-/repo}; H=$(cd "$(dirname "$0")" && pwd); mkdir -p $O
case $V in
 plain) CXX=g++; F="-O2 -g0";;
 omp) CXX=g++; F="-O2 -g0 -fopenmp -DENABLE_OPENMP -D__OPENMP__ -DDRV_OMP";;
 sim) CXX=g++; F="-O1 -g1 -fopenmp -fsanitize=thread -DENABLE_OPENMP -D__OPENMP__"; DF="-O1 -g1 -DDRV_SIM -I$H/sim"; LF="-g1 -no-pie -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=__memset_chk,--wrap=free";;
 asan) CXX=g++; F="-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -DDRV_ASAN";;
esac
DF=${DF:-$F}; LF=${LF:-$F}
DEF="-DMETIS -DNDEBUG -w -I$R/include -I$R/example/sptrsv_src/include"
SRCS="$(ls $R/src/*.cpp $R/src/hdagg/*.cpp) $(ls $R/utils/*.cpp | grep -v SuperNodalTools) $(ls $R/example/sptrsv_src/*.cpp)"
HDRS="$(find $R/include $R/src $R/utils $R/example/sptrsv_src -name '*.h' -o -name '*.hpp' | tr '\n' ' ')"
{
 echo "CXX=$CXX"; echo "all: $O/aggdrv"; echo "HDRS=$HDRS"
 OBJS=""
 for s in $SRCS; do o=$O/$(basename $s .cpp).o; OBJS="$OBJS $o"; echo "$o: $s \$(HDRS)"; printf '\t$(CXX) -std=c++11 %s %s -c %s -o %s\n' "$F" "$DEF" $s $o; done
 for s in $R/utils/external/*.c $R/utils/external/*.cpp; do [ -f $s ] || continue; o=$O/ext_$(basename $s).o; OBJS="$OBJS $o"; echo "$o: $s \$(HDRS)"; printf '\t$(CXX) -x %s %s %s -c %s -o %s\n' $( [[ $s == *.c ]] && echo c || echo c++ ) "$F" "$DEF" $s $o; done
 # src/Group is not compiled by the project's own build: should it not compile, its operations are absent and all others are still checked
 N=; C=; for s in $(ls $R/src/Group/*.cpp 2>/dev/null) $H/drv_grp.cpp; do o=$O/alt_$(basename $s .cpp).o; N="$N $o"; f=$F; [ $s = $H/drv_grp.cpp ] && f=$DF; C="$C\$(CXX) -std=c++17 -Dsym_lib=sym_lib2 $f $DEF -c $s -o $o && "; done
 OBJS="$OBJS $O/alt.o"; echo "$O/alt.o: $(ls $R/src/Group/*.cpp 2>/dev/null | tr '\n' ' ') $H/drv_grp.cpp $(echo $H/drv*.h) \$(HDRS)"
 printf '\t( %s ld -r %s -o %s ) || $(CXX) -std=c++17 %s %s -DNO_GROUP_SRC -c %s -o %s\n' "$C" "$N" $O/alt.o "$DF" "$DEF" $H/drv_grp.cpp $O/alt.o
 for s in $(ls $H/drv_*.cpp | grep -v drv_grp); do o=$O/$(basename $s .cpp).o; OBJS="$OBJS $o"; echo "$o: $s $(echo $H/drv*.h) \$(HDRS)"; printf '\t$(CXX) -std=c++17 %s %s -c %s -o %s\n' "$DF" "$DEF" $s $o; done
 [ $V = sim ] && { o=$O/simomp.o; OBJS="$OBJS $o"; echo "$o: $H/sim/simomp.cpp"; printf '\t$(CXX) -std=c++17 -O2 -I%s -c %s -o %s\n' $H/sim $H/sim/simomp.cpp $o; }
 echo "$O/aggdrv: $OBJS"; printf '\t$(CXX) %s %s -o %s.tmp -lmetis && mv %s.tmp %s\n' "$LF" "$OBJS" $O/aggdrv $O/aggdrv $O/aggdrv
} > $O/Makefile
make -s -j8 -f $O/Makefile
