"""Texts of the properties; gen.py turns them into properties.jsonl and MANIFEST.json."""
D = []
def P(id, title, statement, over, qtext, why, files, mech, note, **kw):
    D.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw), _note=note))
NA = []
ISA_NOTE = 'Every opcode of the tables listed in DESIGN.md is a separate case; everything else is symbolic. One executed instruction, so whole-program behaviour follows by induction over steps, except through peripherals, which stay in their reset state.'
def isa(id, cpu, dirs, where, extra='', statement=None, note=ISA_NOTE):
    P(id, '%s instructions follow the architecture' % cpu,
      statement or ('From any machine state, executing one %s instruction leaves every register, flag, the program counter, the stack pointer and every byte of memory as the %s architecture defines%s. Memory that the instruction does not address, and registers it does not name, are unchanged.' % (cpu, cpu, extra)),
      ['inputs', 'programs'], 'every opcode, every operand byte, every register, flag and memory content, every program counter and stack pointer position, including those at the wrap of the address space',
      'an instruction has 2^16 or more operand combinations, times flags, times addresses that alias (stack over code, wrap at the top of memory); a test program visits a few dozen', dirs, where, note)

isa('P01', 'Z80', ['src/sims/z80.src'], [('instruction dispatch', 'src/sims/z80.src/z80.cc cl_z80::exec_inst'), ('opcode groups', 'src/sims/z80.src/inst*.cc'), ('flag macros', 'src/sims/z80.src/z80mac.h')],
    ' (undocumented flag bits excluded)')
isa('P02', 'MCS-51', ['src/sims/s51.src'], [('instructions', 'src/sims/s51.src/arith.cc, bit.cc, inc.cc, jmp.cc, logic.cc, mov.cc'), ('memory map, parity', 'src/sims/s51.src/uc51.cc')],
    ' (machine cycles included; direct and bit addresses in the internal RAM and the core registers)')
isa('P03', '6502, 65C02 and 65C02S', ['src/sims/mos6502.src'], [('addressing, stack, interrupt entry', 'src/sims/mos6502.src/mos6502.cc'), ('instructions', 'src/sims/mos6502.src/ialu.cc, ibranch.cc, imove.cc, inst.cc'), ('CMOS instructions', 'src/sims/mos6502.src/mos65c02.cc, mos65c02s.cc')],
    ' (decimal mode for valid BCD operands; clock cycles of the NMOS 6502 included; BRK with the interrupt entry that follows; WAI and STP excluded)')
isa('P04', '8080 and 8085', ['src/sims/i8085.src'], [('instructions', 'src/sims/i8085.src/i8080cl.h, ialu.cc, ibranch.cc, imove.cc'), ('dispatch', 'src/sims/i8085.src/i8080.cc cl_i8080::exec_inst')],
    ' (undocumented 8085 instructions and flags excluded; IN, OUT, EI, DI, RIM and SIM only as far as length and unchanged registers)')

isa('P05', '6800, 6801 and 68HC11', ['src/core/motorola.src', 'src/sims/m6800.src', 'src/sims/m68hc11.src'], [('6800 instructions', 'src/core/motorola.src/m6800cl.h, ialu68.cc, ibranch68.cc, imove68.cc, inst68.cc'), ('6801 additions', 'src/core/motorola.src/m6801.cc'), ('68HC11 additions and prefixes', 'src/core/motorola.src/m68hc11.cc'), ('interrupt frame', 'src/core/motorola.src/m6800.cc cl_m6800::push_regs, pull_regs, accept_it')],
    ' (clock cycles included; SWI with the interrupt entry that follows; N and V after CPX on the 6800, V after DAA, and D after a division overflow, which the manuals leave undefined, excluded)')

isa('P06', '6809', ['src/sims/m6809.src'], [('instructions', 'src/sims/m6809.src/m6809.cc inst_alu, inst_low, inst_10, inst_30, inst_page1, inst_page2'), ('indexed addressing', 'src/sims/m6809.src/m6809.cc cl_m6809::index2ea'), ('interrupt frame', 'src/sims/m6809.src/m6809.cc push_regs, pull_regs')],
    ' (software interrupts included; H after subtractions and shifts and V after DAA, which the manual leaves undefined, and register numbers and post bytes it does not define excluded)')

isa('P07', 'STM8', ['src/sims/stm8.src'], [('instructions', 'src/sims/stm8.src/inst.cc'), ('dispatch, loads, stack, interrupt return', 'src/sims/stm8.src/stm8.cc cl_stm8::exec_inst'), ('stack pointer', 'src/sims/stm8.src/stm8.cc cl_sp::write')],
    ' (TRAP and IRET included; the results of a division by zero, clock cycles, HALT, WFI, WFE and the interrupt line tests excluded)')

isa('P08', 'AVR', ['src/sims/avr.src'], [('dispatch, stack', 'src/sims/avr.src/avr.cc cl_avr::exec_inst, push_addr, pop_addr'), ('instructions', 'src/sims/avr.src/arith_inst.cc, bit_inst.cc, jump_inst.cc, logic_inst.cc, move_inst.cc')],
    ' (the instructions of the AT90S/ATmega103 generation that the simulator implements, with 16 bit program counter; clock cycles excluded)')

P('P20', 'A memory location keeps the last value written and nothing else changes',
  'A value stored at an address of an address space, by any of the access paths, is the value, masked to the width of the memory, that every later read of that address returns until it is overwritten; no other address changes. Read only locations keep their contents when the program writes them, an access to an address outside the space is reported, reads as the dummy value and modifies nothing, and address arithmetic always stays inside the space.',
  ['inputs', 'histories'], 'every address (valid or not), every value, every previous contents, every cell width from 1 to 32 bits, spaces starting at zero or elsewhere, every access operation',
  'the property is about all 2^32 addresses and values of every width and about cells that were not accessed; a test looks at the few cells it wrote',
  ['src/core/sim.src/mem.cc', 'src/core/sim.src/memcl.h'], [('cell access', 'src/core/sim.src/mem.cc cl_memory_cell::write/read/set/get'), ('space access', 'src/core/sim.src/mem.cc cl_address_space'), ('address arithmetic', 'src/core/sim.src/mem.cc cl_memory::inc_address, validate_address')],
  'Spaces of a few dozen cells; one access after an arbitrary state, plus the frame condition for an arbitrary other cell; operators (hardware, breakpoints) are attached by other properties.')
P('P21', 'Every address shows the chip cell its newest address decoder selects',
  'After any history of creating and removing address decoders, an address of the space shows and stores exactly the memory chip cell selected by the newest decoder that covers it, and an address covered by none is undecoded. A decoder whose range does not fit in the address space and in the chip completely is refused and changes nothing.',
  ['histories', 'inputs'], 'every sequence of up to three decoders with arbitrary begin, end and chip offset (overlapping, splitting, covering, invalid), every removal, every cell content',
  'overlaps split and shrink earlier decoders in many combinations of relative positions; samples miss the boundary cases where ranges touch or exceed the chip by one',
  ['src/core/sim.src/mem.cc'], [('activation and splitting', 'src/core/sim.src/mem.cc cl_address_decoder::activate, split, shrink_out_of, fully_covered_by'), ('undecoding', 'src/core/sim.src/mem.cc cl_address_space::undecode_area')],
  'Spaces of five addresses and chips of seven cells, which contain every relative order of three ranges\' end points up to adjacency.')
P('P22', 'Banked windows follow their selector, bit windows follow their bit',
  'A banked window shows and stores the memory of the bank that the selector register bits name at that moment, whatever sequence of selector writes, bank redefinitions and explicit bank switches came before; a selector value that names no defined bank leaves the window as it is. Each address of a bit window reads and writes exactly one bit of exactly one cell of the underlying memory.',
  ['histories', 'inputs'], 'every selector content, mask and shift of one- and two-register bankers, every defined/undefined bank pattern in the table, every redefinition, every bit position and cell content',
  'the mapping depends on the product of selector value, mask, previously selected bank and definition history',
  ['src/core/sim.src/mem.cc'], [('bank switching', 'src/core/sim.src/mem.cc cl_banker::activate, switch_to, add_bank, cl_bank_switcher_operator'), ('bit banding', 'src/core/sim.src/mem.cc cl_bander::activate')],
  'Table of banker and bander layouts in the harness; two (thorough: three) selector writes after the definition history.')
P('P25', 'Breakpoints stop exactly at the configured access and leave execution unchanged',
  'A fetch breakpoint stops execution before the instruction at its address has any effect, and an event breakpoint reports exactly the read or write of its address, on the hit count it was set to and not before; temporary breakpoints disappear when they trigger and fixed ones stay. Setting, deleting and hitting breakpoints never changes what the executed instructions compute nor hides hardware attached to the same location.',
  ['inputs', 'histories'], 'every address, hit count, register and memory content, kind of breakpoint, order of attaching hardware and breakpoints, deletion before or after the hit',
  'breakpoints are operators chained into memory cells next to hardware; the defects appear only for particular orders of attaching and deleting',
  ['src/core/sim.src/brk.cc', 'src/core/sim.src/uc.cc', 'src/core/sim.src/mem.cc'], [('fetch breakpoints', 'src/core/sim.src/uc.cc cl_uc::do_inst, fetch'), ('event breakpoints', 'src/core/sim.src/brk.cc cl_ev_brk, src/core/sim.src/uc.cc cl_uc::check_events'), ('operator chain', 'src/core/sim.src/mem.cc cl_memory_cell::append_operator, prepend_operator, del_operator')],
  'Decided on the Z80 simulator (the mechanism is shared by all); at most two breakpoints on a window of memory and three instructions.')
P('P26', 'Loading a program file puts every word at its address and touches nothing else',
  'After loading an Intel hex, S-record, asc, p2h or OMF file, every memory location holds the word given by the last valid record that covers it (in little endian order for wide memories, with extended addresses, shifted by the requested offset and limited to the requested range), or its old value. Records with a wrong checksum or an unknown type and everything after the end record are ignored, comparing changes nothing, no other memory is changed, and loading ends for every file, complete or truncated.',
  ['inputs'], 'every record address, data byte, checksum byte, record type, offset, range and letter case, memories of 8, 12, 16, 24 and 32 bits, records crossing the end of the memory',
  'the result depends on arithmetic on addresses, word sizes and ranges; the test images are well formed and mostly for one width',
  ['src/core/sim.src/uc.cc', 'src/core/utils.src/fio.cc'], [('hex loader', 'src/core/sim.src/uc.cc cl_uc::read_hex_file'), ('S-record loader', 'src/core/sim.src/uc.cc cl_uc::read_s19_file, s19'), ('other loaders', 'src/core/sim.src/uc.cc read_asc_file, read_p2h_file, read_omf_file'), ('placing a word', 'src/core/sim.src/uc.cc cl_uc::set_rom'), ('reading characters', 'src/core/utils.src/fio.cc cl_f::get_c, get_s')],
  'Files of at most three records; the operating system side of file reading is replaced by a buffer, the code above it is the real one. Record lengths are concrete.')
P('P28', 'The MCS-51 timers count, reload, capture and flag as the hardware does',
  'In every mode of timers 0, 1 and 2 of the MCS-51 simulator, each machine cycle (or each falling edge of the counter input, whether the pin or the port latch caused it) changes the timer registers, the reload/capture registers and the overflow and external flags exactly as the data sheet says: only while the run bit and, when gated, the INT pin allow it, with timer 0 in mode 3 owning TR1 and TF1, timer 2 reloading, capturing, counting down or generating baud rate according to T2CON and T2MOD in whatever order they were written, directly or bit by bit. No other bit of TCON, TMOD, T2CON or the port latches changes.',
  ['inputs', 'histories'], 'every contents of the timer and control registers, pin and latch changes between the cycles, order and way of writing the control registers',
  'an overflow needs particular register contents together with a mode, a gate and an edge; the tests in the repository run one fixed program per mode',
  ['src/sims/s51.src'], [('timers 0 and 1', 'src/sims/s51.src/timer0.cc cl_timer0::tick, do_mode0..3, write, happen'), ('timer 2', 'src/sims/s51.src/timer2.cc cl_timer2'), ('port edges', 'src/sims/s51.src/port.cc cl_port::write, set_pin')],
  'The C52 type; two changes of the port and up to three (thorough: five) machine cycles. Gating of timer 1 while timer 0 is in mode 3 and the clock output of timer 2 are not checked.')
P('P29', 'MCS-51 interrupts are accepted exactly when the hardware accepts them',
  'After each instruction of the MCS-51 simulator the interrupt taken is the one the data sheet names: interrupts globally and individually enabled, requested (edge triggered by the pin or the latch, or the level of the pin, timers, serial port), of higher priority level than the service in progress, the higher level first and then the polling order, and never right after RETI or a write of IE or IP. Taking it pushes the program counter, continues at its vector, clears exactly the flags the hardware clears and ends idle mode; RETI returns and ends the service. Otherwise nothing changes, and an idle processor keeps its peripherals running.',
  ['inputs', 'histories'], 'every combination of requests, enables, priorities, pin levels, trigger modes, services in progress and the instruction just executed',
  'arbitration involves two simultaneous requests of different priorities with a service in progress; the tests in the repository have one interrupt at a time',
  ['src/sims/s51.src', 'src/core/sim.src/itsrc.cc'], [('arbitration', 'src/sims/s51.src/uc51.cc cl_51core::do_interrupt, accept_it, do_inst'), ('requests', 'src/sims/s51.src/interrupt.cc cl_interrupt'), ('sources', 'src/core/sim.src/itsrc.cc cl_it_src'), ('return', 'src/sims/s51.src/jmp.cc instruction_32')],
  'The C52 type; power down mode excluded; machine cycles of the interrupt response are not compared.')
isa('P09', 'HC08 and HCS08', ['src/sims/m68hc08.src'], [('dispatch, prefix 9E', 'src/sims/m68hc08.src/m68hc08.cc cl_hc08::exec_inst'), ('instructions', 'src/sims/m68hc08.src/inst.cc'), ('addressing, flags, stack', 'src/sims/m68hc08.src/inst.cc cl_hc08::fetchea, src/sims/m68hc08.src/hc08mac.h'), ('page calls of the 9S08', 'src/sims/m68hc08.src/m68hc08.cc cl_9s08::inst_call, inst_rtc')],
    ' (SWI, RTI, and CALL and RTC of the 9S08 included; V after DAA, Z after a division overflow, clock cycles, STOP, WAIT and the test of the IRQ pin excluded)')
P('P27', 'The expression evaluator of the command line computes what C would',
  'Every expression given to the simulator evaluates, over the current contents of variables, memory cells, bits and bit fields, to the value C defines on 64 bit integers (results compared as 32 bit words): precedence and associativity of all operators, unary operators, comparisons, the conditional and comma operators, casts, increment and decrement, hexadecimal, octal, binary, decimal and character constants. An assignment changes exactly the named variable, cell, bit or bit field and nothing else; a bit or bit field variable means just its bits. A division by zero is reported and stores nothing, and neither it nor a malformed expression disturbs the simulator or the expressions that follow.',
  ['inputs'], 'every value of the operands and memory cells, every operator, pair of operators, kind of operand and target, every digit string of a constant',
  'operators interact with sign, width, zero divisors, shift amounts and field positions; the tests in the repository evaluate a handful of constants',
  ['src/core/cmd.src/cmdpars.y', 'src/core/cmd.src/cmdlex.l', 'src/core/utils.src/app.cc'], [('grammar and evaluation', 'src/core/cmd.src/cmdpars.y'), ('tokens, names and constants', 'src/core/cmd.src/cmdlex.l uc_yy_check_id'), ('entry', 'src/core/utils.src/app.cc cl_app::eval')],
  'Expressions of up to three operators from a table of about a thousand. Shift amounts outside 0..63 and the evaluation of the unused operands of &&, || and ?: are not claimed.')
isa('P10', 'ST7', ['src/sims/st7.src'], [('dispatch, stack, interrupt return', 'src/sims/st7.src/st7.cc cl_st7::exec_inst'), ('instructions and addressing', 'src/sims/st7.src/inst.cc fetchea, get_dest, inst_*'), ('memory access, flags', 'src/sims/st7.src/st7mac.h')],
    ' (TRAP and IRET included; LD S,r, clock cycles, HALT, WFI and the tests of the interrupt line excluded)')
isa('P11', 'GB80, LR35902, Z180, Z80N, R800, eZ80', ['src/sims/z80.src'], [('GB80 dispatch and instructions', 'src/sims/z80.src/gb80.cc, inst_gb80.cc'), ('Z180 and Z80N instructions', 'src/sims/z80.src/inst_ed.cc, z80.cc inst_z80n'), ('R800 and eZ80 instructions', 'src/sims/z80.src/r800.cc, ez80.cc')],
    ' (the instructions the simulator implements; the eZ80 in Z80 mode; undocumented flags, STOP, clock cycles and the flags of OUTINB excluded)')
P('P23', 'Any opcode executes cleanly and is as long as the disassembler says',
  'Whatever bytes a program contains and whatever state the processor is in, executing one instruction ends, accesses only the memories of the simulated machine (no access outside a table or an object, no division trap, no exit of the simulator) and reports a legal result, and the length reported by the disassembler for every instruction it knows, which drives step over and listings, equals the number of bytes the processor fetches for it; undefined opcodes have length one or more.',
  ['inputs'], 'every opcode byte (and second byte behind prefixes) of sixteen processors with every register and memory content',
  'tables of opcodes, lengths and handlers are indexed by program bytes; tests run programs of compilers, which use a fraction of the opcodes and never invalid ones',
  ['src/sims', 'src/core/motorola.src', 'src/core/sim.src/uc.cc'], [('execution of one instruction', 'exec_inst of every processor in src/sims/*.src, src/core/sim.src/uc.cc cl_uc::exec_inst_tab'), ('lengths', 'inst_length, get_disasm_info, get_dis_entry of every processor'), ('tables', 'src/sims/*.src/glob.cc, src/core/motorola.src/*.cc, decode.h files')],
  'Memory mapped peripherals are detached; the instruction is at one address in the middle of the memory or at its end. Not covered: XA, PDK, PicoBlaze, P1516, Rabbit and TLCS processors, HuC6280.')
isa('P12', 'MCS-48, UPI-41, 8021 and 8022', ['src/sims/i8048.src'], [('dispatch, stack, opcode tables', 'src/sims/i8048.src/i8020.cc cl_i8020, decode.h'), ('8048 and 8041 instructions', 'src/sims/i8048.src/i8048.cc, i8041.cc'), ('arithmetic, moves, branches', 'src/sims/i8048.src/arith.cc, move.cc, branch.cc'), ('ports, expander, timer registers', 'src/sims/i8048.src/port.cc, timer.cc, bus.cc')],
    ' (machine cycles, the port latches, the port expander, the timer control and the data bus buffer of the UPI included; addresses beyond the internal memories and the bus during MOVX excluded)')
P('P30', 'Interrupts of 6502, 6800, 6809, STM8 and MCS-48 are taken as the hardware does',
  'After each instruction of these simulators an interrupt is taken exactly when the hardware takes one: a request is present and not masked, NMI whatever the mask is and once per request, the software interrupt in its own instruction, the highest priority first (STM8: software priority above the current level in CC, then the lower vector), inside a handler as soon as the handler unmasks it. Taking it stacks the state the processor stacks, with the stacked status as it was before, masks what the hardware masks and continues at its vector; return from interrupt restores all of it. WAI, CWAI and SYNC wait until the event they wait for; the request of a peripheral lasts as long as its flag. On the MCS-48 one service runs at a time, external before timer, in bank 0.',
  ['inputs', 'histories'], 'every combination of request lines, edges, peripheral flags, masks, software priorities, register contents and the sequence of instructions that touch the interrupt system',
  'the outcome depends on simultaneous requests, nesting and the history of masks; the tests in the repository have at most one interrupt at a time',
  ['src/core/sim.src/itsrc.cc', 'src/core/sim.src/uc.cc', 'src/core/motorola.src', 'src/sims/mos6502.src', 'src/sims/m6809.src', 'src/sims/stm8.src', 'src/sims/i8048.src'], [('arbitration', 'src/core/sim.src/uc.cc cl_uc::do_interrupt'), ('sources and slaves', 'src/core/sim.src/itsrc.cc cl_it_src'), ('entry', 'accept_it of cl_mos6502, cl_mos65c02, cl_m6800, cl_m6809, cl_stm8, cl_i8048'), ('priorities', 'src/sims/stm8.src/stm8.cc cl_stm8::priority_of, priority_main'), ('return', 'RTI, IRET, RETR')],
  'Three instructions in a row (STM8: two). The delay of one instruction after CLI on the 6502 and 6800, the I flag after NMI of the 6800, an NMI before the first load of S of the 6809, HALT and WFI of the STM8, and the time of the response are not claimed.')
isa('P13', 'Padauk FPPA (PDK13, PDK14, PDK15, PDK16)', ['src/sims/pdk.src'], [('instructions', 'src/sims/pdk.src/pdk13.cc, pdk14.cc, pdk15.cc, pdk16.cc'), ('flags of additions and subtractions', 'src/sims/pdk.src/inst.cc'), ('stack, several cores on one controller', 'src/sims/pdk.src/pdk.cc cl_fpp, cl_pdk::exec_inst, set_fppen, set_act')],
    ' (cycles of PDK13 to PDK15 included; several enabled cores take turns, one instruction each, with registers of their own; carry, auxiliary carry and overflow after NADD, table reads, delays, mode changes of the interrupt system and an odd stack pointer excluded)')
isa('P14', 'PicoBlaze (KCPSM3 and KCPSM6)', ['src/sims/pblaze.src'], [('instructions', 'src/sims/pblaze.src/inst.cc inst_*'), ('opcode tables', 'src/sims/pblaze.src/glob.cc disass_pblaze3, disass_pblaze6'), ('call stack', 'src/sims/pblaze.src/stack.cc'), ('interrupt entry', 'src/sims/pblaze.src/pblaze.cc do_interrupt')],
    ' (interrupt entry and return, the register banks of KCPSM6 and its restart on stack overflow and underflow included; COMPARECY of 0 with 255 and carry, and STAR with a constant, excluded)')
P('P16', 'Memory dumps show exactly what the memory holds and load back',
  'Every format of the dump command shows exactly the cells of the requested range, once, in order, with the address of the first cell of each line, all digits of each value, and the characters of the values: hex dump upwards and downwards, the default format, the next page when no address is given, the raw binary format, and the string format with its escapes. An Intel hex dump read back by the loader restores exactly the dumped words and changes nothing else, also beyond 64K and in memories with words wider than a byte. A dump never changes the memory.',
  ['inputs'], 'every contents of the cells in the range, ranges of 1 to 33 cells around the start, the end, line, 64K record boundaries of a memory, cell widths of 8, 12, 16, 24 and 32 bits',
  'record lengths, word sizes, escapes, partial lines and the ends of the memory interact with the values; no test in the repository dumps a memory',
  ['src/core/sim.src/mem.cc', 'src/core/sim.src/uc.cc'], [('dump formats', 'src/core/sim.src/mem.cc cl_memory::dump, dump_s, dump_b, dump_i'), ('loading back', 'src/core/sim.src/uc.cc cl_uc::read_hex_file'), ('number formatting', 'src/core/utils.src/fio.cc, newcmd.cc dd_printf')],
  'Memories without symbolic names, in black and white mode. In the Intel hex check one word of the dump is arbitrary at a time (the low half of a 32 bit word), the others are fixed; disassembly listings and dumps of bit spaces are not covered.')
P('P17', 'Commands that edit and search memory do exactly what they say',
  'The set memory command stores its list of data, numbers and strings with escapes alike, in consecutive cells from the given address on, truncated to the width of the cells, stops at the end of the memory, and shows exactly the cells it has set; given a bit or a bit field it changes exactly those bits. The fill command stores the value in exactly the cells from start to end. The commands where and Where show every place where the sequence of values occurs in the memory and no other, where ignoring the case of letters; a search changes nothing.',
  ['inputs'], 'every contents of the memory, all data values, addresses at and beyond both ends of the memory, every bit and bit field, cell widths of 8, 12, 16 and 32 bits, memories that start at address 0 and elsewhere',
  'value width, sign of characters, field masks, case folding and the bounds of the memory interact; no test in the repository uses these commands on anything but one example',
  ['src/core/cmd.src/cmd_set.cc', 'src/core/cmd.src/cmd_uc.cc', 'src/core/cmd.src/command.cc', 'src/core/sim.src/mem.cc', 'src/core/sim.src/arg.cc'], [('set memory', 'src/core/cmd.src/cmd_set.cc cl_set_mem_cmd'), ('fill, where', 'src/core/cmd.src/cmd_uc.cc cl_fill_cmd, cl_where_cmd'), ('search', 'src/core/sim.src/mem.cc cl_memory::search_next'), ('parameters', 'src/core/cmd.src/command.cc cl_cmdline, set_data_list; src/core/sim.src/arg.cc get_bit_address'), ('escapes', 'src/core/cmd.src/cmdutil.cc proc_escape')],
  'Lists of up to four values, six strings, search patterns of up to three values around arbitrary windows of three or four cells; the parameters are parsed from text, then the parsed numbers of data are made arbitrary. The hole command is not claimed (its documentation and its output disagree about the length by one).')
P('P18', 'A name always means the place it was last given',
  'After any history of definitions, redefinitions and removals of names, a name is found if and only if it is defined and then means the memory, address, cell and bits it was given last; the names listed at an address of an address space are exactly the names defined for that address and for the chip location behind it, each once, those of the whole cell before those of bits; a name given by the analyzer (beginning with a dot) disappears when another name is given to the same place; the width of the longest name is right.',
  ['histories', 'inputs'], 'every history of three (thorough: four) definitions and removals of three names, every address and kind of bit field, in an address space and the chip behind it',
  'two sorted lists, a cached width and references between them must stay consistent over histories; no test in the repository looks at them',
  ['src/core/sim.src/var.cc', 'src/core/utils.src/pobj.cc', 'src/core/sim.src/uc.cc'], [('name table', 'src/core/sim.src/var.cc cl_var_list, cl_var_by_addr_list, cl_vars_iterator'), ('sorted lists', 'src/core/utils.src/pobj.cc cl_sorted_list'), ('symbols of commands', 'src/core/sim.src/uc.cc symbol2address')],
  'Three names; register variables (without a memory) and reading debug files are not covered.')
P('P19', 'Clock counters count exactly the clocks of their kind',
  'A clock counter (timer) exists from the command that adds it to the command that deletes it, runs from start to stop, and over any history of commands and execution it counts, up or down as commanded, exactly the clock cycles that pass while it runs: all of them, those spent in interrupt service routines, in idle mode or in halt mode, according to its kind; setting it gives the commanded value, its time in seconds is that of its clocks, the built in counters work the same way and can be neither added again nor deleted.',
  ['histories', 'inputs'], 'every history of three (thorough: four) commands and ticks on a numbered, a named and a built in counter, every kind and direction, every execution state and interrupt level, every value of the built in counters',
  'kinds, directions, states and the life of a counter interact over histories; no test in the repository looks at a counter',
  ['src/core/sim.src/uc.cc', 'src/core/cmd.src/cmd_timer.cc'], [('counting', 'src/core/sim.src/uc.cc cl_uc::tick, cl_ticker'), ('commands', 'src/core/cmd.src/cmd_timer.cc'), ('table of counters', 'src/core/sim.src/uc.cc get_counter, add_counter, del_counter')],
  'Fixed numbers of cycles per tick; setting a counter by a time with units is not covered. How many cycles an instruction takes is not part of this property.')
P('P31', 'MCS-51 serial port sends and receives each character once, in its bit times',
  'In every mode of the MCS-51 serial port a character written to SBUF is written to the output of the serial port once and unchanged after its 8, 10 or 11 bit times, and sets TI; a character available on its input is received only if REN is set, after its bit times, once and in order (ends of lines as configured), is then read from SBUF and sets RI. A bit takes one machine cycle in mode 0, 64 or (SMOD) 32 clocks in mode 2, and 32 or (SMOD) 16 overflows of timer 1 in modes 1 and 3, or 16 overflows of timer 2 if RCLK (receiving) or TCLK (sending) is set; no other timer or register, not even rewritten, disturbs this, and sending and receiving are independent.',
  ['inputs', 'histories'],
  'every character, every mode, SMOD, RCLK and TCLK, every value of the other bits of SCON and PCON, writes through bytes or bits and in both orders, two characters in a row, sending while receiving, writes to T2CON, PCON and SCON in the meantime',
  'The bit clock comes from three sources through interacting registers written in any order; a sample program uses one set-up.',
  ['src/sims/s51.src/serial.cc', 'src/sims/s51.src/timer0.cc', 'src/sims/s51.src/timer2.cc', 'src/core/sim.src/serial_hw.cc'],
  [('cl_serial::write', 'src/sims/s51.src/serial.cc'), ('cl_serial::tick', 'src/sims/s51.src/serial.cc'), ('cl_serial::happen', 'src/sims/s51.src/serial.cc'), ('cl_serial_hw::get_input', 'src/core/sim.src/serial_hw.cc')],
  'Short timer reloads; the ninth bit, multiprocessor mode, mode changes during a transfer and terminal menus are excluded; timing is checked to half a bit time')
P('P24', 'Reset starts every CPU again from the state of its data sheet',
  'Whatever state the simulated CPU is in (executing, idle, powered down, in nested interrupt service routines, with any contents of registers and peripherals), reset ends that state: the program counter is the reset address or is read from the reset vector, interrupts are masked, none is requested or in service, registers that the data sheet defines at reset have those values, peripherals of the MCS-51 and the timer of the MCS-48 are stopped, clock counters and the record of calls are empty, and the contents of memory are kept. A second reset changes nothing.',
  ['histories', 'inputs'],
  'every state of registers, flags, memory and MCS-51 peripheral registers, every execution state, up to two interrupt levels in service; Z80, LR35902, 6800, 68HC11, 6809, HC08, ST7, STM8, AVR, 6502, 65C02, 8048, 8051 and 8052',
  'Simulations are usually reset right after start, when everything has its reset value anyway; state that reset forgets shows only after particular programs.',
  ['src/core/sim.src/uc.cc', 'src/sims'],
  [('cl_uc::reset', 'src/core/sim.src/uc.cc'), ('reset and clear_sfr', 'src/sims/*/*.cc')],
  'other CPUs, and peripherals other than those named, are excluded')
P('P15', 'The MCS-51 counter array and watchdog count, compare, capture and reset',
  'The programmable counter array of the simulated 89C51R counts exactly the source selected in CMOD (every third of a machine cycle, every cycle, overflows of timer 0, or falling edges of ECI) while CR is set (by CCON or by its bit address) and not while it is frozen in idle mode by CIDL. A module compares at every count when its comparator is enabled, and a match sets CCFn and toggles its output as CCAPMn says, resets the CPU when module 4 is the watchdog, and drives the output by the comparison of CL in PWM mode, reloaded from CCAPnH when CL overflows; writes to CCAPnL and CCAPnH disable and enable the comparator. The selected edges of the input of a module capture the counter. Interrupts are requested by those flags only that ECF and ECCFn enable. The watchdog timer starts, and starts again, only when 1E and then E1 are written to WDTRST, and resets the CPU when it counted 3FFF cycles, not before.',
  ['histories', 'inputs'],
  'every value of counter, compare registers, control registers and flags; every sequence of input levels over three ticks; every sequence of four writes of the watchdog register and a run of it',
  'A counter that is compared once per tick, a flag set by an output mode, or an edge that is remembered too long appears only in particular combinations of mode, source and time.',
  ['src/sims/s51.src'],
  [('cl_pca', 'src/sims/s51.src/pca.cc'), ('cl_wdt', 'src/sims/s51.src/wdt.cc')],
  'one module at a time; a module is not in PWM mode and the watchdog at once')
P('P32', 'The simulated program controls the simulation through the interface cell',
  'When the simulator interface is turned on at a memory cell, the simulated program gets the documented service by writing command characters and parameters to that cell and reading the answer from it: every command waits for exactly its parameters, answers exactly its bytes in order, and ends, so that the next command is understood whatever the program read or wrote in between. stop stops the simulation, reset resets the CPU, print and hex print exactly the byte given, write appends exactly the byte to the output file, read and fin_check deliver the bytes of the input file once each in order and then zero, the execution limit is set and read, and the information commands tell the truth about the commands. Characters that are no command do nothing. The interface answers at the cell given last only, and keeps other cells. The control cells (run, start, stop, quit, reason, ticks, limit, print, write) show and change exactly the state they stand for.',
  ['histories', 'inputs'],
  'every history of a command and five further reads and writes with any values, then the rest of the command and two further commands; every content of input files of up to two bytes; every value of parameters, counters and limit',
  'Programs use the interface in the one order of the documentation; a parameter counter or an answer left over shows only after an interrupted or repeated command.',
  ['src/core/sim.src/simif.cc', 'src/core/sim.src/hw.cc', 'src/core/utils.src/fio.cc'],
  [('commands of the interface', 'src/core/sim.src/simif.cc cl_sif_command'), ('the cell and the control cells', 'src/core/sim.src/simif.cc cl_simulator_interface')],
  'xtal and real time of the control cells are excluded (floating point)')
P('P33', 'step, run and next execute exactly what the user asked for',
  'step executes exactly the number of instructions given, or goes on exactly until the given number of clocks, virtual clocks, fetches, reads, writes or simulated time has passed, whatever the counters were before. run starts at the given address, or where the program is, and stops exactly before the instruction at the stop address, or after the number of instructions of the execution limit. next executes one instruction, except that it executes a subroutine call up to its return, with whatever the subroutine does in between, on every CPU: each instruction that calls a subroutine is known as a call and no other, with the address of the instruction after it. Breakpoints which these commands place are gone when they are hit, those of the user stay, and a step which was stopped by something else has no effect on later commands.',
  ['inputs', 'histories'],
  'every opcode of 13 CPUs for the calls; every program of up to four instructions out of kinds with different clocks, fetches, reads and writes, every amount, and every value of counters, registers and flags for step; nested and plain subroutines for next; each kind of stop for run',
  'Stepping over calls fails on the instruction forms one does not try, and amounts are compared with counters that start anywhere.',
  ['src/core/cmd.src/cmd_exec.cc', 'src/core/sim.src/sim.cc', 'src/core/sim.src/uc.cc', 'src/core/motorola.src', 'src/sims'],
  [('commands', 'src/core/cmd.src/cmd_exec.cc'), ('starting, stepping and stopping', 'src/core/sim.src/sim.cc cl_sim::start, step, stop'), ('amounts', 'src/core/sim.src/uc.cc cl_time_measurer'), ('calls', 'is_call() and next_inst() of the CPUs and their instruction tables')],
  'software interrupts may or may not count as calls; PDK, Rabbit, XA, TLCS-90, PicoBlaze, 68HC12 do not know calls at all and are not covered')
P('P34', 'The 6821 parallel and 6850 serial interfaces do what their data sheets say',
  'After any history of reads and writes of its registers, changes of the pins and clocks, the MC6821 holds what was written in the data direction, output and control registers of the two ports; a port reads its pins (the output register where port B drives); an edge of C1, or of C2 as an input, of the selected direction sets its flag and no other edge does; only reading the port clears the flags; C2 as an output follows its bit, or goes low at the read (A) or write (B) of the port and high again at the active edge of C1 or at the clock; a line requests the interrupt exactly when its flag and its enable bit are set, and the CPU takes it then. The MC6850 sends and receives each character exactly once, unchanged and in order, in the bit times of its word format and divider, whatever the program changes in the interrupt enables meanwhile; its status tells full receiver, empty transmitter and interrupt request truly.',
  ['histories', 'inputs'],
  'every history of three (thorough four) operations on a 6821 in any state with all values; every word format, divider, control byte and pair of characters on the 6850, sent and received, with the control register written in the middle; every control and status of the interrupt requests',
  'Flags and strobes depend on the order of accesses and edges; drivers use one mode each.',
  ['src/core/motorola.src/pia.cc', 'src/core/motorola.src/cia.cc', 'src/core/sim.src/serial_hw.cc'],
  [('6821', 'src/core/motorola.src/pia.cc'), ('6850', 'src/core/motorola.src/cia.cc'), ('bit clock', 'src/core/sim.src/serial_hw.cc prediv_bitcnt')],
  'moving the 6821 to another address is not covered; C2 does not change while it is an output; 7 bit formats are used with 7 bit characters; errors of the line and modem lines are not simulated')
P('P35', 'The timers of the STM8 devices count as the reference manuals say',
  'Every timer of every STM8S, STM8AF, STM8L and STM8L101 device steps its counter once per prescaler value of clocks while it is enabled and its clock gate is open, and not otherwise: edge aligned from 0 to the reload value or back, with a period of the reload value plus one, center aligned up and down between them with the direction in its bit. The end of a period, and nothing else, is an update event: it sets the flag, ends one pulse mode, and is suppressed by UDIS; an event by program restarts counter and prescaler. Registers hold what is written (up counters have no direction bit), a write of the counter sets it, and the two bytes of a 16 bit counter read together belong to one moment. The program can clear but not set flags, and the interrupt is requested exactly when flag and enable bit are set.',
  ['inputs', 'histories'],
  'every timer of five devices that have among them all kinds; every counter, reload value and control register for one clock in each mode; every history of three (thorough: four) clocks and register accesses in edge aligned mode; prescalers up to 512',
  'Periods, directions and prescalers go wrong at the ends of the range and in combinations of control bits that no test program uses.',
  ['src/sims/stm8.src/timer.cc', 'src/sims/stm8.src/clk.cc', 'src/sims/stm8.src/stm8.cc'],
  [('timers', 'src/sims/stm8.src/timer.cc'), ('clock gates', 'src/sims/stm8.src/clk.cc'), ('which device has which timer', 'src/sims/stm8.src/stm8.cc cl_stm8::mk_hw_elements')],
  'the counter and the reload value are set so that the reload value is not zero; preloading of the reload value and of the prescaler until the next update, the repetition counter, slave modes and capture and compare are not simulated and not covered')
P('P36', 'The serial interfaces of the STM8 devices lose, repeat and change nothing',
  'Every U(S)ART of every STM8 device sends and receives each character exactly once, unchanged and in order, in the bit times set in its baud rate registers, whatever the program changes in its interrupt enables meanwhile. Its status register tells truly when the data register is empty, transmission is complete and a character was received; the program can clear only the flags the manual allows, reading status and data clears the receiver flags, and nothing else clears them. The interface works exactly when its clock gate is open and it is not disabled, and requests its interrupts exactly when flag and enable bit are set.',
  ['inputs', 'histories'],
  'every pair of characters and every interrupt enable before and in the middle of a transfer, on every interface of six devices and at four baud rate settings; every content of status, control and clock gate registers for flags and interrupts',
  'Transfers take thousands of clocks and programs touch the registers at any of them; the tests send text at one setting.',
  ['src/sims/stm8.src/serial.cc', 'src/core/sim.src/serial_hw.cc', 'src/sims/stm8.src/clk.cc', 'src/sims/stm8.src/stm8.cc'],
  [('interface', 'src/sims/stm8.src/serial.cc'), ('bit clock, input', 'src/core/sim.src/serial_hw.cc'), ('clock gates', 'src/sims/stm8.src/clk.cc'), ('which device has which interface', 'src/sims/stm8.src/stm8.cc cl_stm8::mk_hw_elements')],
  'frames are 10 bits, 9 bit characters, parity, stop bits and the special modes are not simulated; overrun and the time of the idle flag are not covered')
