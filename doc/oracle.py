ISA = 'Oracle: an independent interpreter of the instruction set in %s, written from the manual, running on its own copy of the symbolic registers and memory; afterwards every register, flag, PC and an arbitrary memory address (for which the solver chooses the worst value) are compared. Cost: %s.'
O = {
'P01': ISA % ('`harness/isa_z80.cc`', 'about 1300 opcodes incl. CB, ED, DD, FD, DDCB, FDCB prefixes; 25 s on 8 cores'),
'P02': ISA % ('`harness/isa_s51.cc`', '255 opcodes, 40 s'),
'P03': ISA % ('`harness/isa_6502.cc` (three variants)', '256 opcodes each, 25 s'),
'P04': ISA % ('`harness/isa_8080.cc` (8080, 8085)', '10 s'),
'P05': ISA % ('`harness/isa_6800.cc` (6800, 6801, 68HC11)', '40 s'),
'P06': ISA % ('`harness/isa_6809.cc`', 'all three pages, all indexed post bytes, 40 s'),
'P07': ISA % ('`harness/isa_stm8.cc`', 'all four prefix pages, 50 s'),
'P08': ISA % ('`harness/isa_avr.cc`', 'opcode fields symbolic, 10 s'),
'P09': ISA % ('`harness/isa_hc08.cc` (HC08, HCS08, 9S08)', '24 s'),
'P10': ISA % ('`harness/isa_st7.cc`', 'four prefix pages, 2 s'),
'P11': ISA % ('`harness/isa_gb80.cc` and `harness/isa_z80.cc` with other types', '60 s'),
'P19': 'Oracle: a table of counters kept by the harness. New objects are filled with garbage, so a value that is used uninitialised shows. `harness/timers.cc`.',
'P31': 'Oracle: bit times of the hardware description computed by the harness; the number, order and time of characters seen by files of its own, and SCON and SBUF. `harness/s51_uart.cc`.',
'P24': 'Oracle: reset values of the data sheets, per CPU, in the harness. `harness/reset.cc`.',
'P15': 'Oracle: a model of the counter, of one module and of the watchdog, written from the hardware description of the 8XC51FX and 89C51R. `harness/s51_pca.cc`.',
'P32': 'Oracle: a model of the protocol in docs/simif.html (commands, parameters, answers) and of the control cells. `harness/simif.cc`.',
'P33': 'Oracle: a model of tiny Z80 programs with the clocks, fetches, reads and writes of each instruction from the data sheet (`harness/exec_cmd.cc`), and the lists of subroutine calls of the instruction sets (`harness/calls.cc`).',
'P34': 'Oracle: models of the two devices written from the MC6821 and MC6850 data sheets (`harness/pia.cc`, `harness/acia.cc`).',
'P35': 'Oracle: a model of the timers written from the reference manuals RM0016, RM0031 and RM0013 and the register maps of the data sheets (`harness/stm8_tim.cc`).',
'P36': 'Oracle: the frame timing, flag and interrupt tables of the UART chapters of RM0016, RM0031 and RM0013, and the register maps of the data sheets (`harness/stm8_uart.cc`).',
'P18': 'Oracle: a plain list of (name, place), and a linear search. `harness/names.cc`, `harness/names_cmd.cc` (the var and rmvar commands, and the bits shown for a name).',
'P17': 'Oracle: the effect of each command on a shadow array, and the positions of all matches computed directly. `harness/cmd.cc`.',
'P16': 'Oracle: the text of each dump is parsed character by character against a shadow array; the Intel hex text is given to the loader and an arbitrary word of the loaded memory compared. `harness/dump.cc`.',
'P14': ISA % ('`harness/isa_pblaze.cc` (KCPSM3, KCPSM6)', '25 s'),
'P13': ISA % ('`harness/isa_pdk.cc` (pdk13, pdk14, pdk15, pdk16, eight cores)', '6 s'),
'P12': ISA % ('`harness/isa_8048.cc` (8050, 8042, 8022, 8021)', '5 s'),
'P20': 'Oracle: a shadow array. `harness/mem_space.cc` performs one operation of each access path on an arbitrary state and compares the accessed and one arbitrary other cell.',
'P21': 'Oracle: the list of decoders in order of creation; the newest that covers an address decides. `harness/mem_decode.cc`.',
'P22': 'Oracle: bank = table[(selector & mask) >> shift], bit = (cell >> n) & mask. `harness/mem_bank.cc`.',
'P23': 'Oracle: the symbolic executor itself (object bounds of every access, null and freed pointers, divisors, calls of exit, termination) and the count of fetched bytes against the reported length. `harness/anyinst.cc`, compiled for 20 (thorough: 31) processor types; registers and memories are found by enumerating the address spaces, chips and variables of the simulator.',
'P25': 'Oracle: the same instructions executed on a twin state without breakpoints, plus a counter of hits. `harness/brk.cc`.',
'P26': 'Oracle: a direct record interpreter over the same symbolic characters. `harness/loader.cc`. The `FILE` below the real character reader is replaced by a buffer.',
'P27': 'Oracle: the same expression compiled by clang in the harness (`harness/expr.cc`), on 64 bit integers.',
'P28': 'Oracle: a model of the three timers from the Intel/Atmel data sheets. `harness/s51_timer.cc`.',
'P30': 'Oracle: a model of request lines, masks, stacking and return per processor, run in lockstep over a short symbolic history of instructions and requests. `harness/irq.cc`.',
 'P29': 'Oracle: a model of the arbitration. `harness/s51_irq.cc`.',
}
