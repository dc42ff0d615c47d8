id='z80-daa'; prop='P01'
needs='DAA with A between 0x9a and 0x9f and C clear'
breaks='DAA does not add the high nibble correction when only the low digit overflow makes the high digit exceed 9'
edits=[('src/sims/z80.src/inst.cc',"((regs.raf.A & 0xf0) > 0x90) || (regs.raf.A > 0x99))","((regs.raf.A & 0xf0) > 0x90))")]
demo='''S=_build/src/sims/z80.src/ucsim_z80
# LD A,99h; LD B,1; ADD A,B; DAA   -> 00h with carry
printf 'set memory rom 0 0x3e 0x99 0x06 0x01 0x80 0x27\\nstep\\nstep\\nstep\\nstep\\nquit\\n' | timeout 60 $S -q > ${TMPDIR:-/tmp}/demo.$$ 2>&1
grep -a -q 'A= 0x00' ${TMPDIR:-/tmp}/demo.$$; r=$?
rm -f ${TMPDIR:-/tmp}/demo.$$
exit $r
'''
