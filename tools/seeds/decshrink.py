id='dec-shrink'; prop='P21'
needs='a new decoder that begins before an older one and ends inside it, so that the older one is shrunk from its left side'
breaks='the rest of the older decoder is recorded with a wrong chip address, so it describes a mapping that is not in effect'
edits=[('src/core/sim.src/mem.cc',"chip_begin+= (end-as_begin+1);","chip_begin+= (end-begin+1);")]
demo='''S=_build/src/sims/z80.src/ucsim_z80; T=${TMPDIR:-/tmp}/demo.$$
printf 'memory create addressspace as1 0 0x20 8\\nmemory create chip c1 0x40 8\\nmemory create chip c2 0x40 8\\nmemory create addressdecoder as1 4 0xf c1 0\\nmemory create addressdecoder as1 2 6 c2 0x20\\ninfo memory\\nquit\\n' | timeout 60 $S -q > $T 2>&1
grep -a -q 'as1 0x07 0x0f -> c1 0x03 ' $T; r=$?
[ $r = 0 ] || cat $T
rm -f $T
exit $r
'''
