import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
GC="garbled_circuit/"
HM=GC+"garbled_circuit_high_mem.cpp"; LM=GC+"garbled_circuit_low_mem.cpp"; GU=GC+"garbled_circuit_util.cpp"; GG=GC+"garbled_circuit.cpp"
NOTEST="The garbled-circuit and SCD tests need netlists that are not in the tree, so no passing test runs a garbled circuit at all; "
p("C01","Two-party result equals the circuit's plaintext meaning",
 "For every valid circuit, every private, public and initial value and every number of clock cycles, when two honest parties run the protocol in its standard mode both report success and the output bits they learn together are exactly those the circuit computes on those values, cycle by cycle. This holds with oblivious transfer and with it disabled, and regardless of the randomness either party draws.",
 ["programs","inputs","configurations"],"every topologically sorted circuit over the 11 gate types with DFFs, constants, public wires, dead logic and repeated operands; all input values; 1..n cycles; OT on/off; any randomness",
 NOTEST+"and even those would sample a few fixed circuits, not all programs and inputs.",
 [GG,HM,GU,"crypto/OT.cpp","crypto/OT_extension.cpp"],
 [("half-gate garbling and known-value (SkipGate) propagation",GU),("per-cycle garble/evaluate loops, DFF latching",HM),("label transfer",HM)],
 ["strings and return codes of GarbleStr / EvaluateStr in two processes joined by a recording relay"])
p("C02","Each party learns exactly the output bits the mask gives it",
 "Output bits whose mask bit is 1 are revealed to the garbler only and the others (including bits beyond the mask's length) to the evaluator only, with their true value; a bit a party does not own is reported to it as 0 and the message needed to decode it is never sent to that party. This holds for secret and publicly known output bits alike and in every cycle.",
 ["programs","inputs","configurations"],"every circuit, input, mask (shorter than, equal to and longer than the output) and output wire kind (gate, secret input, DFF, public input, constant)",
 NOTEST+"the mask interacts with every output kind and value, and who learns what is visible only on the wire.",
 [HM,LM],[("output transfer by mask",HM),("output transfer by mask, low-memory",LM)],
 ["each party's output string; number and direction of the output messages on the wire"])
p("C03","Low-memory mode computes the same results as the standard mode",
 "Running any circuit for any number of cycles with the low-memory option gives both parties success and the same output values as the circuit's plaintext meaning and as the standard mode, with and without oblivious transfer, in every output mode and with early termination.",
 ["programs","inputs","configurations"],"every sequential circuit, inputs, cycles, mask, output mode, termination period",
 NOTEST+"the low-memory path is a second implementation of the whole protocol.",
 [LM,GG],[("per-cycle label generation and transfer",LM),("low-memory garble/evaluate",LM)],["outputs and return codes of both parties with low_mem_foot=true"])
p("C04","Early termination happens at the right cycle and both parties agree",
 "When a termination period T is set, the run stops after the first cycle c with c a multiple of T in which the terminate wire is 1 (cycles count from 0), otherwise after the requested number; both parties stop in the same cycle without deadlock, and the reported outputs are those of exactly the executed cycles. The terminate wire may be public, constant per run or secret, and asking for termination on a circuit without a terminate wire is refused.",
 ["programs","inputs","configurations","schedules"],"every circuit with a terminate output (gate, input, DFF; public or secret), period, cycle bound and mode",
 NOTEST+"agreement and absence of deadlock are two-process properties over all termination cycles.",
 [GU,HM,LM,"scd/scd_evaluator.cpp"],[("terminate exchange",GU),("period check",HM)],["outputs, cycle count, stall detector in the relay"])
p("C05","Output modes are consistent views of the same result",
 "The consecutive, separated-by-clock and last-clock output formats of either party denote the same values: consecutive is the little-endian-by-cycle concatenation of the per-cycle outputs, separated prints one line per executed cycle in cycle order, and last-clock prints only the last executed cycle. This holds in standard, low-memory and plaintext evaluation.",
 ["programs","inputs","configurations"],"all output sizes, cycles and values, both memory modes and the plaintext evaluator",
 NOTEST+"the relation ties together three formats of the same run for all sizes.",
 ["util/util.cpp",HM,LM],[("output formatting","util/util.cpp")],["output strings of all modes for the same inputs"])
p("C06","Every garbled gate decodes to the gate's truth table",
 "For every gate type, every combination of secret, inverted, repeated, public and constant operands, and every label choice, garbling a gate and evaluating it with the labels of any operand values gives the label of the correct output value, or the same public value on both sides. At most one two-row table is produced per gate, and only when both operands are secret and unrelated.",
 ["inputs","programs"],"11 gate types x operand kinds x operand values x random labels, offsets, keys, gate ids and cycle ids",
 "No passing test garbles a gate; correctness must hold for all labels and permute bits.",
 [GU,"util/util.cpp","crypto/aes.h"],[("half-gates with operand/output inversion",GU),("equal / inverted operand shortcuts",GU)],["labels and values returned by GarbleGate / EvalGate"])
p("C07","Only gates that need it cost communication, and both parties agree",
 "For every circuit whose gates are all read by something, in every cycle the garbler sends exactly one table for each gate that has two unrelated secret operands, is not an XOR, XNOR or NOT and whose result can still influence an output, DFF or terminate wire, never more; linear gates, gates decided by public values, and gates that become dead because of them are free (in other circuits, at least the unread gates themselves are free too). The evaluator consumes precisely the tables sent, and the rest of the traffic is a function of the circuit's sizes only, never of private values.",
 ["programs","inputs","configurations"],"every circuit and public input; private inputs must not change any message length",
 NOTEST+"cost and input-independence of traffic are properties of the byte stream, which no test observes.",
 [GU,HM,LM],[("known-value propagation and fan-out reduction",HM),("table selection",HM)],["relay transcripts: table counts per cycle, byte counts and message directions"])
p("C08","The evaluator never sees both labels of a wire or the garbler's offset",
 "In everything the garbler sends in a session, no two label-sized values differ by the secret global offset, the offset itself never appears, and for each garbler input bit exactly one label is sent, whose value-dependent permute bit is uncorrelated with the bit. Nothing the evaluator receives lets it decode a wire that is not one of its outputs.",
 ["programs","inputs","configurations"],"every circuit, all inputs, both memory modes, OT on and off",
 "Privacy is a property of the whole transcript for all inputs; tests look at results only.",
 [HM,LM,GU],[("label pair generation and selection by input bit",HM)],["transcript of all garbler-to-evaluator messages, with the offset known to the monitor"])
p("C09","Garbling randomness is fresh and unpredictable in every session",
 "Labels, the global offset, the fixed key and OT randomness differ between any two sessions, also sessions started in the same second with the same inputs, never repeat within a session, and cannot be computed from values sent in the clear or from the start time.",
 ["histories","configurations"],"any two sessions, any start time, every value sent in one session",
 "A test compares one run's result; secrecy of randomness only shows across sessions and through attacks on the transcript.",
 ["util/util.cpp",GG],[("random block generator","util/util.cpp")],["transcripts of repeated sessions; an attacker's reconstruction attempt from the public values"])
p("C10","Base oblivious transfer delivers exactly the chosen message",
 "For any vector of message pairs and any choice bits, the receiver obtains, position by position, the message its bit selects, and both sides report success; differing vector lengths are refused. This holds for 128-bit blocks and for integers up to the length the transfer supports.",
 ["inputs","configurations"],"all lengths including 0 and 1, message values including 0 and all-ones, all choice vectors, random keys",
 "The existing test runs one random vector per run; delivery must hold for every message and choice.",
 ["crypto/OT.cpp","crypto/BN.cpp"],[("RSA-based 1-out-of-2 OT","crypto/OT.cpp")],["received messages and return codes"])
p("C11","OT extension delivers exactly the chosen message",
 "For any number of message pairs and any choice bits, the extended transfer gives the receiver, position by position, the message its bit selects and reports success on both sides.",
 ["inputs","configurations"],"lengths from 1 to beyond the RSA modulus size, message values including leading zeros, all choice vectors",
 "The existing test runs one length with random data.",
 ["crypto/OT_extension.cpp","crypto/OT.cpp","crypto/BN.cpp"],[("IKNP extension with bit-matrix transposition","crypto/OT_extension.cpp")],["received messages and return codes"])
p("C12","The OT sender cannot read the receiver's choices off the wire",
 "Everything the receiver sends in an oblivious transfer, together with everything the sender knows, must not reveal the receiver's choice bits: no computation on the sender's view recovers them better than guessing, for any number of transfers.",
 ["inputs","configurations"],"base OT and extension, all vector lengths (the evaluator's whole input in a session)",
 "Tests check delivery, not what the transcript reveals; the leak appears only above certain lengths.",
 ["crypto/OT.cpp","crypto/OT_extension.cpp"],[("blinding of the request by k^e mod N","crypto/OT.cpp"),("masking of the extension matrix columns","crypto/OT_extension.cpp")],["sender's complete view (transcript plus own secrets) given to distinguisher monitors"])
p("C13","The OT receiver cannot read the messages it did not choose",
 "For every position the data the receiver obtains reveals only the chosen message: the other message never appears in the transcript, nor does unmasking with any value the receiver holds give it, and masks are never reused between positions or between the two messages of a pair.",
 ["inputs","configurations"],"base OT and extension, all lengths, messages and choices",
 "Tests never examine the other message.",
 ["crypto/OT.cpp","crypto/OT_extension.cpp"],[("per-message RSA mask","crypto/OT.cpp"),("tweaked hash of row and row xor s","crypto/OT_extension.cpp")],["receiver's complete view given to unmasking monitors"])
p("C14","A failing or hostile peer never causes a crash, hang or silent wrong result",
 "If the connection is cut at any byte, or the peer sends counts, sizes or data that do not fit the agreed circuit, each party ends in bounded time by reporting failure (or with its correct result if it already had everything), without memory errors and without reporting success with wrong outputs.",
 ["fault_sequences","crash_points","inputs"],"every cut position in either direction, corrupted length and count fields, garbage streams; both memory modes, OT on/off; OT and big-number transfer alone",
 "No test injects a fault; the crash points are every byte of every session.",
 [HM,LM,"crypto/BN.cpp","crypto/OT.cpp","tcpip/tcpip.cpp"],[("CHECK on every send/receive",HM),("length handling","crypto/BN.cpp")],["exit status, sanitizer reports and outputs of the surviving party; stall detector"])
p("C15","Results do not depend on how the network segments or delays data",
 "Whatever way the byte streams between the parties are split, coalesced or delayed, a session's success and results are those of an undisturbed session.",
 ["schedules","programs"],"arbitrary segmentation (down to one byte) and delays in both directions over random sessions in all modes",
 "Tests run over loopback with whole messages delivered at once.",
 ["tcpip/tcpip.cpp",HM,LM,"crypto/OT.cpp"],[("read/write until complete","tcpip/tcpip.cpp")],["outputs under a relay that re-segments and delays"])
p("C16","Big-number, block and bit-matrix conversions are exact",
 "Converting a 128-bit block to a big number and back is the identity, sending a big number delivers exactly its value (0 and any size included), bitwise xor, inversion and all-ones act on exactly the requested bits, and bit-matrix transposition is exact and self-inverse.",
 ["inputs"],"all block values and big numbers of all bit lengths, widths and matrix shapes",
 "Existing cases use one random value of one size.",
 ["crypto/BN.cpp","crypto/OT_extension.cpp"],[("conversions","crypto/BN.cpp"),("transposition","crypto/OT_extension.cpp")],["function results against an independent integer model"])
p("C17","Netlist translation preserves the circuit's meaning",
 "For every well-formed supported Verilog netlist, translation succeeds and the resulting circuit description computes the same output sequence as the netlist for all inputs, whatever the order of instances, naming, cell types, assignments, constants and formatting used.",
 ["programs","inputs"],"netlists over all supported cells incl. DFF, MUX, HADDER, FADDER, assigns, constants (also as outputs), 1-bit and vector ports, shuffled order, line breaks; all inputs",
 "The translator's only test needs absent netlists; equivalence must hold for all programs and inputs.",
 ["scd/parse_netlist.cpp","scd/scheduling.cpp","scd/scd.cpp","scd/v_2_scd.cpp"],[("tokenizer and cell expansion","scd/parse_netlist.cpp"),("topological renumbering","scd/scheduling.cpp")],["emitted SCD, simulated independently and compared with a netlist simulator"])
p("C18","Emitted circuit descriptions are well formed, minimal and reproducible",
 "Every emitted circuit description has consistent sizes, gates in topological order, all indices in range and exactly one gate per logic function of its cells; the name map lists every DFF and gate wire with the index it has in the description plus the terminate index; and translating the same netlist again gives identical files.",
 ["programs"],"every accepted netlist (Verilog and Bristol)",
 "Structural invariants must hold for every program; no test inspects an emitted file.",
 ["scd/scd.cpp","scd/scheduling.cpp","scd/parse_netlist.cpp"],[("sorting and mapping","scd/scheduling.cpp"),("serialisation","scd/scd.cpp")],["emitted .scd and .map files"])
p("C19","Malformed netlists are rejected cleanly",
 "A netlist that is truncated, has a combinational loop, an undriven or unknown signal, a missing pin, an unknown port or an undefined output is reported as a failure without crash, hang or memory error; no netlist text whatsoever makes the translator crash.",
 ["inputs","programs"],"mutations and truncations at every position of valid netlists and random text, both formats",
 "No test feeds an invalid netlist.",
 ["scd/parse_netlist.cpp","scd/scheduling.cpp"],[("pin checks, loop detection","scd/parse_netlist.cpp")],["return code, sanitizer reports"])
p("C20","Bristol circuits are translated faithfully",
 "Every well-formed Bristol-format circuit is translated into a description with the same garbler and evaluator inputs, the last wires as outputs in order, and the same Boolean function.",
 ["programs","inputs"],"all circuits over AND, XOR, INV; all input splits; all inputs",
 "No test covers the Bristol path.",
 ["scd/parse_netlist.cpp","scd/v_2_scd.cpp"],[("Bristol parser","scd/parse_netlist.cpp")],["emitted SCD simulated independently"])
p("C21","The plaintext evaluator computes the circuit's meaning",
 "For every valid circuit description, inputs, initial values and cycle count, the plaintext evaluator returns success and exactly the output sequence the circuit defines, and the recorded per-cycle wire values are the true ones; when it cannot evaluate it reports failure instead of a result.",
 ["programs","inputs","configurations"],"all circuits, inputs, cycles, termination periods, output modes, missing or unreadable side files",
 "The evaluator's tests need absent netlists.",
 ["scd/scd_evaluator.cpp"],[("cycle loop","scd/scd_evaluator.cpp")],["output string, return code, trace file"])
p("C22","Circuit description files round-trip and bad ones are refused",
 "Reading a circuit description yields exactly the circuit that was written, and a missing, truncated or inconsistent file is refused; it never leads to a crash, memory error or a result computed from values that are not in the file.",
 ["inputs","programs"],"all valid circuits; truncation at every token; out-of-range indices and sizes; random text",
 "No test reads a damaged description.",
 ["scd/scd.cpp",GG,"scd/scd_evaluator.cpp"],[("reader/writer","scd/scd.cpp")],["loaded structure, return codes and sanitizer reports of loader and users"])
p("C23","The block cipher used for garbling is standard AES",
 "Key setup and encryption, of one block or any number of blocks at once, equal standard AES in ECB mode for every key of 128 (the size garbling uses), 192 or 256 bits and every block, in place and independent of the batch size; decryption under the same key gives the blocks back; nothing outside the key and the blocks is read or changed.",
 ["inputs"],"all keys of the three sizes, blocks and batch sizes",
 "No test touches the cipher; a weakened cipher keeps results correct and breaks privacy silently.",
 ["crypto/aes.h"],[("AES-NI key expansion and rounds","crypto/aes.h")],["ciphertexts compared with an independent AES"])
p("C24","Value-formatting helpers are exact inverses over their ranges",
 "Formatting typed values into input strings, parsing output strings into signed values, building masks and converting between binary, hexadecimal and decimal are exact for every width from 1 to 64 bits, every value and every list of fields; parsing a 128-bit hex string accepts exactly valid text and yields its value.",
 ["inputs"],"all widths, values (extremes included), number of fields and lengths",
 "The tests check a few block strings only.",
 ["util/util.cpp"],[("string conversions","util/util.cpp")],["function results against an independent model"])
p("C25","The command-line tools deliver these guarantees end to end",
 "The shipped programs, run as two processes over TCP or as translator and plaintext evaluator with any supported combination of options (inline hex or file values, masks, modes, periods), print the correct results and exit with success exactly when they succeeded; invalid options are refused with a failure status.",
 ["configurations","inputs","programs"],"TinyGarble, V2SCD_Main, SCD_Evaluator_Main, OT_Main over random circuits and option combinations",
 "No passing test starts any of these programs on a circuit.",
 [GC+"garbled_circuit_main.cpp","scd/v_2_scd_main.cpp","scd/scd_evaluator_main.cpp","crypto/OT_main.cpp"],[("option handling and exit codes",GC+"garbled_circuit_main.cpp")],["stdout and exit status of real processes"])
p("C26","The bundled processor programs compute their functions for all inputs",
 "For every pair of input arrays, each bundled program (aes, bubble-sort, compare, cordic, dijkstra, hamming, matrix-mul, mem-test, merge-sort, mul, sbox, sha3, sum), built natively or for the processor, computes the function it is named for on the two shares, stays within its memories and ends.",
 ["inputs"],"all garbler and evaluator arrays (domain of the function)",
 "Each test uses one fixed input pair.",
 ["a23"],[("gc_main of each program","a23/*/*.c")],["output words of the compiled program against independent models"])
p("C27","Valid sessions are free of memory errors, UB and uninitialised output",
 "In every valid use of the library and tools no memory-safety violation or undefined behaviour occurs, no result or branch depends on uninitialised memory, and no uninitialised process memory is sent to the peer.",
 ["programs","inputs","configurations"],"all workloads of the other properties under AddressSanitizer, UndefinedBehaviorSanitizer and memcheck",
 "Tests run uninstrumented and do not reach the garbling code.",
 ["garbled_circuit","crypto","scd","tcpip","util"],[("allocation discipline",HM),("allocation discipline","scd/scd.cpp")],["sanitizer and memcheck reports"])
p("C28","The Verilog circuit library computes its documented functions",
 "Each design of the Verilog circuit library (the arithmetic and logic library, the benchmark designs, the MIPS and ARM-subset processors, and the technology-mapping operators) computes, after reset and for every input, supported parameter value and program, the function its name and documentation state, in the documented number of cycles. The ARM subset is the one the processor decodes: shift amounts 0 to 31, r15 only as a branch target or load base, single word and byte transfers, multiple transfers, multiplications and conditional execution. Which statements a fixed processor program executes and how many cycles it takes do not depend on private data when its control flow does not.",
 ["programs","inputs"],"all modules of the library; all parameter values within the documented ranges; all inputs; all programs of the supported instruction subsets",
 "There are no synthesised netlists or simulators in the build, so no test runs any design.",
 ["circuit_synthesis"],[("arithmetic and logic modules","circuit_synthesis/syn_lib"),("ARM-subset processor","circuit_synthesis/a23"),("MIPS processor","circuit_synthesis/mips"),("technology-mapping operators","circuit_synthesis/lib/stdcells_S.v")],["module outputs in every cycle under a Verilog simulator"])
p("C29","The transport delivers bytes exactly, in order and completely",
 "Whatever a party sends in any sequence of send calls is received byte for byte, in order, by any sequence of receive calls of the same total length, for any lengths including 0 and multi-megabyte, in both directions at once; a closed connection is reported as failure and never as delivered data, and a server accepts connections on the port it was given.",
 ["schedules","inputs","fault_sequences"],"all call-length sequences, segmentations, signal interruptions and close points",
 "The existing test exchanges one small message.",
 ["tcpip/tcpip.cpp"],[("complete-transfer loops","tcpip/tcpip.cpp")],["checksums and return codes of both ends"])
p("C30","Memory stays bounded over cycles in low-memory mode and over sessions",
 "In low-memory mode the memory a party needs does not grow with the number of clock cycles beyond the input and output values themselves (neither garbled tables, nor labels, nor anything an oblivious transfer allocates accumulate), and a session that ends successfully gives back all memory and descriptors it took, in every mode, so that one process can run any number of sessions.",
 ["histories","programs","configurations"],"every circuit, cycle count, sequence of sessions in one process, both memory modes, OT on and off, extended OT, early termination, all output modes",
 NOTEST+"and growth only shows over many cycles or sessions.",
 [LM,HM,GG,"crypto/OT.cpp","crypto/OT_extension.cpp","util/util.cpp"],[("per-cycle buffers of low-memory mode",LM),("what a transfer allocates","crypto/OT.cpp"),("circuit removal",GU)],
 ["allocator hooks: live bytes before and after each session, peak within a session; open descriptors"])
p("C31","Synthesis cell libraries and the translator agree on every cell",
 "Every cell of every synthesis library of the repository (technology libraries and simulation models) is accepted by the netlist translator, and the circuit it emits for the cell computes, for every input and with the initial value of registers, the function the library states for that cell and pin. A netlist built from these cells therefore means the same to a simulator using the library's models and to the translated circuit, in every cycle.",
 ["programs","inputs"],"every cell of every library file on every input combination; every netlist over the cells, executed over several cycles from random initial values",
 "The libraries are read by external synthesis tools only; no test relates them to the translator.",
 ["circuit_synthesis/lib","scd/parse_netlist.cpp","scd/v_2_scd.cpp"],[("cell functions and pin names","circuit_synthesis/lib"),("cell and pin names known to the translator","scd/parse_netlist.cpp")],["emitted circuits of single-cell and random netlists"])
p("C32","The program tools emit exactly the memory image of a linked program",
 "For every linked 32-bit ARM program, the splitter of a23/tools prints the program's memory image word by word from address 0: every byte of code and data at its address, zero wherever no section holds data, up to the end of the highest section and at most a few zero bytes more, with every section listed by name, type, size and address; the word extractor turns that print-out into one word per line in address order, as the bundled p.txt files are. A file that is not such a program, or one whose headers point outside the file, ends with a failure status, and no file makes the splitter read or write outside its buffers or print uninitialised memory.",
 ["inputs"],"all section layouts (sizes, alignments, gaps, file and header order, zero data of any size), all damaged and foreign files",
 "No test runs these tools; an image that is wrong only for some layouts garbles a different program.",
 ["a23/tools"],[("copying of sections into the image","a23/tools/amber-elfsplitter.c"),("words of the image","a23/tools/amber-code32.sh")],["printed image against the sections of the file; sanitizer reports; exit status"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: 
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
