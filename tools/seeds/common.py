def cxx(code, sim='z80', incl=''):
    """demo that compiles a C++ file beside it against the built libraries (and the objects of one simulator, without its main)"""
    demo = '''T=$(mktemp -d); R=$PWD; D=$(cd "$(dirname "$0")"; pwd); O=$(ls $R/_build/src/sims/%s.src/*.o | grep -v '/s%s.o')
g++ -g -w -fno-access-control -I$R/_build/src/core/utils.src -I$R/_build/src/core/cmd.src -I$R/src/core/sim.src -I$R/src/core/utils.src -I$R/src/core/cmd.src -I$R/src/core/gui.src -I$R/src/core/motorola.src -I$R/src/sims/%s.src -o $T/d $D/d.cc $O -L$R/_build -lmotorola -lsim -lucsimutil -lgui -lcmd -lsim -lm -lrt || { rm -rf $T; exit 2; }
cd $T; timeout 60 ./d; r=$?
cd /; rm -rf $T
exit $r
''' % (sim, sim, sim)
    pre = '''#include "ddconfig.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "utils.h"
#include "globals.h"
#include "appcl.h"
#include "simcl.h"
#include "uccl.h"
#include "memcl.h"
#include "brkcl.h"
%s
#define CHECK(c) do { if (!(c)) { printf("FAILED: %%s\\n", #c); return 1; } } while (0)
''' % incl
    return demo, {'d.cc': pre + code}
def cmds(sim, text, want, dont=None, exe=None):
    """demo that feeds simulator commands and looks for the wanted fixed texts in the output"""
    l = '''S='_build/src/sims/%s.src/%s'; T=$(mktemp)
timeout 60 $S -q > $T 2>&1 <<'X'
%s
quit
X
r=0
''' % (sim, exe or 'ucsim_' + sim, text.strip())
    for w in ([want] if isinstance(want, str) else want): l += "grep -a -q -F -e '%s' $T || { echo missing '%s'; cat $T; r=1; }\n" % (w, w)
    for w in ([dont] if isinstance(dont, str) else dont or []): l += "grep -a -q -F -e '%s' $T && { echo unexpected '%s'; cat $T; r=1; }\n" % (w, w)
    return l + 'rm -f $T\nexit $r\n'
