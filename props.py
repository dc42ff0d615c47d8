"""Which harnesses decide which property.  One entry per target: harness file, simulator source directories, engine options."""
T = lambda h, sims='', **kw: dict(h=h, sims=sims.split() if isinstance(sims, str) else sims, **kw)
PROPS = {
 'P01': dict(targets=[T('isa_z80.cc', 'z80')], bounds='one instruction from an arbitrary state (all registers, flags, PC, SP, IFFs, all 64K memory bytes symbolic); block repeat instructions: one iteration per executed step'),
 'P02': dict(targets=[T('isa_s51.cc', 's51', opts=dict(case_budget=60))], bounds='one instruction from an arbitrary state (all 64K code and external data bytes, 256 internal RAM bytes, all SFRs, PC symbolic); direct and bit operands in internal RAM, ACC, B, PSW, SP, DPL, DPH; quick: instructions without register operand start in one register bank'),
 'P03': dict(targets=[T('isa_6502.cc', 'mos6502'), T('isa_6502.cc', 'mos6502', defs=['V=1']), T('isa_6502.cc', 'mos6502', defs=['V=2'])], bounds='one instruction (BRK: and the interrupt entry) from an arbitrary state: all registers, flags, PC, all 64K memory bytes symbolic; decimal mode with valid BCD operands; NMOS JMP (ind) with the pointer not at the end of a page'),
 'P04': dict(targets=[T('isa_8080.cc', 'i8085'), T('isa_8080.cc', 'i8085', defs=['CPU85=1'])], bounds='one instruction from an arbitrary state (all registers, flags, PC, SP, all 64K memory bytes symbolic)'),
 'P05': dict(targets=[T('isa_6800.cc', 'm6800'), T('isa_6800.cc', 'm6800', defs=['V=1']), T('isa_6800.cc', 'm68hc11', defs=['V=2'])], bounds='one instruction (SWI: and the interrupt entry) from an arbitrary state: all registers, flags, PC, all 64K memory bytes symbolic, board peripherals (CIA, PIA) detached'),
 'P06': dict(targets=[T('isa_6809.cc', 'm6809', opts=dict(case_budget=200))], bounds='one instruction from an arbitrary state: all registers, flags, PC, all 64K memory bytes symbolic, board peripherals (CIA, PIA) detached; indexed post bytes that the manual defines'),
 'P07': dict(targets=[T('isa_stm8.cc', 'stm8', opts=dict(case_budget=100))], bounds='one instruction from an arbitrary state: all registers, flags and all bytes of a 256K plain memory symbolic, stack pointer roll over on and off; control transfers from an arbitrary PC, the other instructions from two places; effective addresses inside the 256K; jumps whose computed target leaves the 64K section, HALT, WFI, WFE, JRIL/JRIH, BREAK and clock cycles excluded', assumptions=['the log of stack operations (cl_uc::stack_write) is stubbed']),
 'P08': dict(targets=[T('isa_avr.cc', 'avr')], bounds='one instruction from an arbitrary state: 64K data memory including registers, SREG and stack pointer, 64K words of program memory, program counter and all opcode fields symbolic, on board peripherals detached; instructions of the simulator table (not MOVW, MULS, MULSU, FMUL*, LPM Rd, ELPM, SPM, EIJMP, EICALL, BREAK); stacks over the registers, pointer register loads the manual leaves undefined, displacements past 0xffff, JMP/CALL targets above 64K words and clock cycles excluded'),
 'P20': dict(targets=[T('mem_space.cc')], bounds='cell widths 1..32 x three start addresses (0, small, non-round); space and chip of 64 cells; one access operation per path on arbitrary contents with arbitrary 32 bit address and value; address arithmetic with arbitrary address and step'),
 'P21': dict(targets=[T('mem_decode.cc')], bounds='histories of up to 3 decoder definitions/undefinitions with arbitrary begin, end, chip begin inside spaces and chips of at most 64 cells; decode/write/read at an arbitrary address afterwards'),
 'P22': dict(targets=[T('mem_bank.cc')], bounds='bankers with one and two selector registers, arbitrary selector contents and masks, redefinition of one bank, explicit switching; bit banders with every bits-per-cell and distance in range; arbitrary cell contents'),
 'P25': dict(targets=[T('brk.cc', 'z80')], bounds='one or two breakpoints with arbitrary address/hit count over arbitrary memory, register and PC contents; up to 3 executed instructions'),
 'P26': dict(targets=[T('loader.cc', 'z80')], bounds='files of one to three records with up to 2 (thorough: 5) words each, arbitrary addresses, data, checksums, record types and letter case; memories of 8 (two start addresses), 12, 16, 24 and 32 bits, as the default memory, as a named space and as a chip; 24 bit memories: eight record addresses'),
 'P28': dict(targets=[T('s51_timer.cc', 's51', opts=dict(case_budget=90, max_paths=400000))], bounds='every value of TMOD/TCON/T2CON control bits, timer and reload registers, two changes of the latch and pins of the port, 1 or 2 (thorough: up to 4) machine cycles and one more after the second change'),
 'P29': dict(targets=[T('s51_irq.cc', 's51', opts=dict(case_budget=120, max_paths=400000))], bounds='two instructions; any two (thorough: three) of the six interrupts enabled, all requests, priorities and the pins arbitrary, up to two services in progress; the instruction is NOP, RETI, a write of IE, IP, TCON (byte or bit), entry to idle mode, or the processor is idle'),
 'P09': dict(targets=[T('isa_hc08.cc', 'm68hc08'), T('isa_hc08.cc', 'm68hc08', defs=['V=1']), T('isa_hc08.cc', 'm68hc08', defs=['V=2'])], bounds='one instruction from an arbitrary state: all registers, flags, PC, all 64K memory bytes symbolic, memory management unit and bank selector detached', assumptions=['the log of stack operations (cl_uc::stack_write) is stubbed']),
 'P27': dict(targets=[T('expr.cc', 'z80')], bounds='about 1000 expressions of up to three operators over arbitrary contents of an 8 bit and a 32 bit memory and variables, constants of up to 5 arbitrary digits; shift amounts 0..63 (assignment forms: 0..31)'),
 'P10': dict(targets=[T('isa_st7.cc', 'st7')], bounds='one instruction from an arbitrary state: all registers, flags, PC, all 64K memory bytes symbolic, stack pointer inside the page 0x100..0x1ff without wrap', assumptions=['the log of stack operations (cl_uc::stack_write) is stubbed']),
 'P11': dict(targets=[T('isa_gb80.cc', 'z80')] + [T('isa_z80.cc', 'z80', defs=['V=%d' % v]) for v in (1, 2, 3, 4)], bounds='one instruction from an arbitrary state: all registers, flags, PC, SP, all 64K memory bytes symbolic; all GB80 opcodes; ED page (eZ80: DD and FD pages, too) of the others, the pages they share with the Z80 are decided by P01; Z80N block instructions with a count of at most 2 (thorough: 3)', assumptions=['GB80: the log of stack operations (cl_uc::stack_write) is stubbed']),
 'P23': dict(targets=[T('anyinst.cc', s, defs=['S_%s=1' % s, 'DETACH=1'] + (['TYPE=' + t] if t else []) + (['GB=1'] if t in ('GB80', 'LR35902') else []), opts=dict(case_budget=b), **({} if q else dict(thorough_only=True))) for s, t, b, q in (
   ('i8048', '', 60, 1), ('i8048', 'I8021', 60, 1), ('i8048', 'I8022', 60, 0), ('i8048', 'I8041', 60, 0), ('st7', '', 60, 1), ('m68hc08', '', 60, 1), ('m68hc08', 'HCS08', 60, 1), ('m6809', '', 90, 1), ('mos6502', '', 60, 1), ('mos6502', '8502', 60, 1), ('mos6502', '65C02', 60, 0), ('mos6502', '65C02S', 60, 1), ('i8085', '', 60, 1), ('i8085', 'I8080', 60, 1),
   ('z80', '', 60, 1), ('z80', 'GB80', 60, 1), ('z80', 'LR35902', 60, 0), ('z80', 'Z180', 60, 0), ('z80', 'EZ80', 60, 1), ('z80', 'R800', 90, 0), ('stm8', '', 90, 1), ('stm8', 'AF52', 120, 0), ('m68hc12', '', 90, 1), ('m68hc11', '', 60, 1), ('m6800', '', 60, 1), ('m6800', 'M6801', 60, 1), ('avr', '', 60, 1), ('s51', '', 60, 1), ('s51', '51R', 60, 1), ('f8', '', 60, 1), ('oisc', '', 60, 1))],
   bounds='one instruction from an arbitrary state: all registers, special function registers and memories symbolic, memory mapped peripherals detached; 256 opcodes and 256 second bytes behind each prefix (F8: one prefix), at one address in the middle and at the end of the program memory (the length is compared in the middle only); STM8 TRAP and IRET from six stack pointers', assumptions=['stubbed: the log of stack operations, reports of invalid addresses and instructions, debug output', 'STOP of the GB80 (listed with its padding byte) and undefined opcodes are not compared']),
 'P12': dict(targets=[T('isa_8048.cc', 'i8048', defs=['V=%d' % v]) for v in (0, 1, 2, 3)], bounds='one instruction from an arbitrary state: all registers, PC, PSW, flags, ports, pins, timer registers, internal memory and the whole program memory symbolic; all opcodes of the 8050, 8042, 8022 and 8021, and one access of the host to the UPI', assumptions=['the log of stack operations (cl_uc::stack_write) is stubbed', 'indirect addresses are within the internal RAM of the type']),
 'P30': dict(targets=[T('irq.cc', 'mos6502', defs=['S_mos6502=1', 'V=0']), T('irq.cc', 'mos6502', defs=['S_mos6502=1', 'V=1']), T('irq.cc', 'm6800', defs=['S_m6800=1']), T('irq.cc', 'm6809', defs=['S_m6809=1'], opts=dict(case_budget=200, max_paths=400000)), T('irq.cc', 'stm8', defs=['S_stm8=1']), T('irq.cc', 'i8048', defs=['S_i8048=1'])], bounds='three instructions (thorough: four; STM8: two, thorough: three) from an arbitrary state of masks and registers, chosen among those that touch the interrupt system; every request line, edge and peripheral flag arbitrary before each of them; STM8: every pair of sources with arbitrary software priorities', assumptions=['the log of stack operations (cl_uc::stack_write) is stubbed']),
 'P13': dict(targets=[T('isa_pdk.cc', 'pdk', defs=['V=%d' % v]) for v in (0, 1, 2, 3, 4)], bounds='one instruction from an arbitrary state: A, flags, SP, operands, Timer16, all data memory and IO registers symbolic, at one fixed program address per core type; schedules of 9 (thorough: 12) instructions of 8 cores, with every FPPEN value and change of it', assumptions=['stack pointer even, and not 0 before a pop', 'pointers of IDXM within the data memory', 'peripherals detached from the IO registers']),
 'P14': dict(targets=[T('isa_pblaze.cc', 'pblaze', defs=['V=%d' % v], opts=dict(case_budget=200)) for v in (0, 1)], bounds='one instruction or interrupt entry from an arbitrary state: all registers of both banks, flags, stack pointer, stack, scratch pad and shadow flags symbolic, every register number and operand; at the last program address (KCPSM3) and another one; first operand of two-register instructions s0, s7 or sF in the quick check, all in the thorough one', assumptions=['default sizes of ROM (1024) and scratch pad (64)', 'stack pointer below 31']),
 'P16': dict(targets=[T('dump.cc', 'z80', opts=dict(case_budget=200))], bounds='one dump of an arbitrary memory of 16 K to 130 K cells of 8, 12, 16, 24 or 32 bits: ranges of 1..33 cells at six places', assumptions=['the console and the FILE below are replaced by a buffer in memory', 'plain memory cells']),
 'P17': dict(targets=[T('cmd.cc', 'z80', opts=dict(case_budget=150))], bounds='one command on an arbitrary memory of 33 to 48 cells of 8, 12, 16 or 32 bits', assumptions=['console output goes to a buffer']),
 'P18': dict(targets=[T('names.cc', 'z80', opts=dict(case_budget=100, max_paths=200000)), T('names_cmd.cc', 'z80', opts=dict(case_budget=100))], bounds='histories of 3 (thorough 4) operations on 3 names, 8 addresses of an address space and 16 of its chip'),
 'P19': dict(targets=[T('timers.cc', 'z80', opts=dict(case_budget=100))], bounds='histories of 3 (thorough 4) commands or ticks', assumptions=['output of the commands is not looked at']),
 'P31': dict(targets=[T('s51_uart.cc','s51', defs=['V=1'], opts=dict(case_budget=200, max_insts=60000000))], bounds='two characters in a row per direction, symbolic; timer 1 overflows every 1 or 2 machine cycles, timer 2 every 1/6 or 2; four program actions in the middle of a transfer', assumptions=['console files are stand-ins that record the characters', 'debug messages are stubs']),
 'P24': dict(targets=[T('reset.cc', s, defs=['R_%s=1' % r, 'V=%d' % v]) for r, s, v in (('Z80', 'z80', 0), ('Z80', 'z80', 2), ('6800', 'm6800', 0), ('6800', 'm68hc11', 2), ('6809', 'm6809', 0), ('HC08', 'm68hc08', 0), ('ST7', 'st7', 0), ('STM8', 'stm8', 0), ('AVR', 'avr', 0), ('6502', 'mos6502', 0), ('6502', 'mos6502', 1), ('8048', 'i8048', 0), ('51', 's51', 0), ('51', 's51', 1))], bounds='one history: an arbitrary state, then one and then a second reset; at most two interrupt levels in service', assumptions=['memory cells that are registers of peripherals are not compared', 'debug messages are stubs']),
 'P15': dict(targets=[T('s51_pca.cc', 's51')], bounds='three ticks of one machine cycle (one tick when three counts are made in it); four writes to the watchdog register', assumptions=['debug messages are stubs']),
 'P32': dict(targets=[T('simif.cc', 'z80', opts=dict(case_budget=100))], bounds='a command and 5 (thorough 6) reads or writes, then the rest of the command and two more commands; control cells: two accesses', assumptions=['starting and stopping the simulation only records', 'files and console are buffers in memory']),
 'P33': dict(targets=[T('exec_cmd.cc', 'z80', opts=dict(case_budget=100))] + [T('calls.cc', s, defs=['R_%s=1' % r, 'V=%d' % v]) for r, s, v in (('Z80', 'z80', 0), ('Z80', 'z80', 2), ('8085', 'i8085', 0), ('51', 's51', 0), ('6502', 'mos6502', 0), ('6800', 'm6800', 0), ('6800', 'm6800', 1), ('6800', 'm68hc11', 2), ('6809', 'm6809', 0), ('HC08', 'm68hc08', 0), ('ST7', 'st7', 0), ('STM8', 'stm8', 0), ('8048', 'i8048', 0), ('AVR', 'avr', 0))], bounds='programs of 4 (thorough 5) executed instructions chosen while they run; amounts up to 60; 16 bit start values of the counters; one opcode with three arbitrary bytes after it for the calls', assumptions=['printing is not executed']),
 'P34': dict(targets=[T('pia.cc', 'm6800', opts=dict(case_budget=100)), T('acia.cc', 'm6800', opts=dict(case_budget=100))], bounds='6821: 3 (thorough 4) operations from an arbitrary state; 6850: two characters, instructions of 1 and 5 cycles', assumptions=['6850: input and output are buffers in memory']),
 'P35': dict(targets=[T('stm8_tim.cc', 'stm8', defs=['V=%d' % v], opts=dict(case_budget=100)) for v in range(5)], bounds='one clock from any state in each mode; histories of 3 (thorough 4) operations; two periods of the prescaler', assumptions=['debug messages are stubs']),
 'P36': dict(targets=[T('stm8_uart.cc', 'stm8', defs=['V=%d' % v], opts=dict(case_budget=100)) for v in range(6)], bounds='two characters, at dividers 16, 27, 0x1234 and 0xa8d9; one change of the interrupt enables in the middle', assumptions=['input and output are buffers in memory', 'debug messages are stubs']),
}
