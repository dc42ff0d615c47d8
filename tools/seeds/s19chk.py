import sys; sys.path.insert(0,'/verif/tools/seeds'); from common import *
id='s19-badrec'; prop='P26'
needs='an S19 file where a good record follows one with a bad checksum'
breaks='loading stops at the first record with a bad checksum instead of skipping only that record'
edits=[('src/core/sim.src/uc.cc',"""      if (sum != chk)
	continue;
      t_addr a;""","""      if (sum != chk)
	break;
      t_addr a;""")]
demo='''S=$PWD/_build/src/sims/z80.src/ucsim_z80; T=$(mktemp -d)
printf 'S1040010AA00\\nS104001255%02X\\nS9030000FC\\n' $((255-(4+0x12+0x55)&255)) > $T/a.s19
cd $T; printf 'file "a.s19"\\ndump rom 0x10 0x13\\nquit\\n' | timeout 60 $S -q > o 2>&1
grep -a -i -q '^0x0*12 *55' o; r=$?
[ $r = 0 ] || cat o
cd /; rm -rf $T
exit $r
'''
