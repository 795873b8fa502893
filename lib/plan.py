# What is built, and which suites decide which property.
BASE = "-std=c++17 -w -DVDF_MODE=0 -DFAST_MACHINE=1 -DCHIAVDF_VERSION='\"dev\"' -DNDEBUG -I@S -I@V/lib"
BASED = BASE.replace(" -DNDEBUG", "")
G = "-lgmpxx -lgmp -lpthread"
# The engine links the assembly kernels, which the repository generates with its own compile_asm program.
ASM = ("g++ -std=c++17 -O1 -w -no-pie -DVDF_MODE=0 -DFAST_MACHINE=1 -DCHIAVDF_VERSION='\"dev\"' -I@S @S/compile_asm.cpp -o compile_asm -lgmpxx -lgmp -lpthread & j1=$!\n"
       "gcc -O2 -c @S/refcode/lzcnt.c -o lzcnt.o\n%s & j2=$!\n"
       "wait $j1; ./compile_asm >/dev/null; ./compile_asm avx2 >/dev/null; ./compile_asm avx512 >/dev/null\nfor i in asm avx2_asm avx512_asm; do gcc -c ${i}_compiled.s -o ${i}_compiled.o; done\nwait $j2\n")
def engine(name, cxx="g++ -O2 -g1", link="", nd=True, flags=""):
    return ASM % ("%s %s %s -c @V/suites/%s.cpp -o s.o" % (cxx, BASE if nd else BASED, flags, name)) + "%s -no-pie s.o *_compiled.o lzcnt.o -o %s %s %s" % (cxx, name, link, G)
SCHED = "-Wl,--wrap=__gmpz_powm_ui -ldl"
HWSRC = "hw/hw_util hw/hw_proof hw/hw_interface hw/chia_driver hw/ftdi_driver hw/vdf_driver hw/pll_freqs vdf_base_hw vdf_hw_symbol_anchors prover_runtime"
def hw(out, x, src="hw", more=""):   # the hardware path, over a chip modelled behind the USB bridge's library (or the emulator)
    cc = "g++ -O2 -g1 %s %s -I@S/hw -I@V/lib/ftdi" % (x, BASED)
    return ("for f in %s; do %s -c @S/$f.cpp -o $(basename $f).o & p=\"$p $!\"; done\n%s -Dmain=hw_main -c @S/hw/hw_vdf_client.cpp -o hw_vdf_client.o & p=\"$p $!\"\n%s -c @V/suites/%s.cpp -o s.o & p=\"$p $!\"\n"
            "gcc -O2 -c @S/refcode/lzcnt.c -o lzcnt.o\nfor j in $p; do wait $j; done\ng++ %s *.o -Wl,--wrap=__gmpz_powm_ui -Wl,--wrap=_ZNSt6chrono3_V212system_clock3nowEv -o %s %s -ldl" % (more + HWSRC, cc, cc, cc, src, x, out, G))
# The bindings: C wrapper as a shared library, the Rust crate over it (the dependency and the generated declarations replaced by stand-ins), the Python package.
BIND = ('''gcc -O2 -fPIC -c @S/refcode/lzcnt.c -o lz.o
F="-O2 -g1 -fPIC %s"; PY=/opt/vp/venv/bin/python; [ -x $PY ] || PY=python3
g++ $F -shared -Wl,-Bsymbolic @S/c_bindings/c_wrapper.cpp lz.o -o libcw.so %s & p="$p $!"
mkdir -p chiavdf; cp @R/chiavdf/*.py chiavdf/; cp @V/lib/bind/worker.py worker.py
g++ $F -fvisibility=hidden $($PY -m pybind11 --includes) -shared @S/python_bindings/fastvdf.cpp lz.o -o chiavdf/_chiavdf$($PY -c "import sysconfig; print(sysconfig.get_config_var('EXT_SUFFIX'))") %s & p="$p $!"
g++ -O2 -g1 %s @V/suites/@N.cpp lz.o -o @N %s -ldl & p="$p $!"
RC=rustc; command -v rustc >/dev/null || RC=$(ls /root/.cargo/bin/rustc /root/.rustup/toolchains/stable*/bin/rustc 2>/dev/null | head -1)
mkdir -p gen; cp @V/lib/bind/bindings.rs gen/; export OUT_DIR=$PWD/gen
$RC --edition 2021 --crate-type rlib --crate-name link_cplusplus @V/lib/bind/link_cplusplus.rs -o liblink_cplusplus.rlib
$RC -O --edition 2021 --crate-type rlib --crate-name chiavdf @R/rust_bindings/src/lib.rs --extern link_cplusplus=liblink_cplusplus.rlib -o libchiavdf.rlib
for j in $p; do wait $j; done
$RC -O --edition 2021 --crate-type cdylib --crate-name shim @V/lib/bind/shim.rs -L . --extern chiavdf=libchiavdf.rlib -l dylib=cw -C link-arg=-Wl,-rpath,$PWD -C link-arg=-L$PWD -o libshim.so
''' % (BASE, G, G, BASE, G))
BIN = {
    "bindings": {"build": BIND.replace("@N", "bindings")},
    "engine": {"build": engine("engine", link="-Wl,--wrap=asm_avx2_func_gcd_unsigned -Wl,--wrap=asm_cel_func_gcd_unsigned")},
    "timelord": {"build": engine("timelord", link=SCHED)},
    "timelord5k": {"build": engine("timelord", link=SCHED, flags="-DCHIAVDF_VERIF_SCALE").replace("-o timelord ", "-o timelord5k ")},
    "kernels": {"build": engine("kernels")},
    "client5k": {"build": engine("client", link=SCHED, flags="-DCHIAVDF_VERIF_SCALE").replace("-o client ", "-o client5k ")},
    "client_asan": {"build": engine("client", cxx="g++ -O1 -g1 -fsanitize=address -fno-omit-frame-pointer", link=SCHED, flags="-DCHIAVDF_VERIF_SCALE").replace("-o client ", "-o client_asan "), "env": {"ASAN_OPTIONS": "detect_leaks=0"}},
    "hw": {"build": hw("hw", "")},
    "emu": {"build": hw("emu", "", "emu", "hw/emu_funcs hw/emu_runner ")},
    "hw_asan": {"build": hw("hw_asan", "-fsanitize=address -fno-omit-frame-pointer"), "env": {"ASAN_OPTIONS": "detect_leaks=0"}},
    "verify": {"build": "gcc -O2 -Dhas_lzcnt_hard=real_has_lzcnt_hard -c @S/refcode/lzcnt.c -o lzcnt.o\n"
                        "g++ -O2 -g1 %s @V/suites/verify.cpp lzcnt.o -o verify %s" % (BASE, G)},
    "concurrent": {"build": "gcc -O2 -c @S/refcode/lzcnt.c -o lz2.o\ng++ -O2 -g1 %s @V/suites/concurrent.cpp lz2.o -o concurrent %s" % (BASE, G)},
    "concurrent_tsan": {"build": "clang -O1 -c @S/refcode/lzcnt.c -o lz2.o\nclang++ -O1 -g1 -fsanitize=thread %s @V/suites/concurrent.cpp lz2.o -o concurrent_tsan %s" % (BASE, G), "env": {"TSAN_OPTIONS": "halt_on_error=1 exitcode=66 report_signal_unsafe=0 die_after_fork=0"}},
    "hostile": {"build": "clang -O1 -c @S/refcode/lzcnt.c -o lz2.o\n"
                         "clang++ -O1 -g1 -fsanitize=address,integer-divide-by-zero,bounds,null,return -fno-sanitize-recover=all -fno-omit-frame-pointer %s @V/suites/hostile.cpp lz2.o -o hostile %s" % (BASED, G),
                "env": {"ASAN_OPTIONS": "detect_leaks=0"}},
    "arith": {"build": "gcc -O2 -c @S/refcode/lzcnt.c -o lz2.o\ng++ -O2 -g1 %s @V/suites/arith.cpp lz2.o -o arith %s" % (BASED, G)},
}
MODEL = "Trusts the reference model (lib/model.h: textbook forms arithmetic over GMP, own SHA-256), GMP and the compiler."
PROPS = {
    "C01": {"runs": [("verify", ["C01.prove", "C01.blocks", "C01.tables"])], "technique": "property-based testing: generated (D, start, T) against a reference model and round trip through every verifier",
            "note": "Every generated proof is compared byte for byte with the defining formula and offered to every verifier. Sizes 16..1024 bits; T up to 150000, and just around the several-table threshold of 10^7, on small groups where the model knows the order. " + MODEL},
    "C02": {"runs": [("verify", ["C02.small", "C02.large"])], "technique": "property-based testing: structured forgeries, differential against the verification equation",
            "note": "Verdict compared with the equation evaluated by the model for honest, edited and forged cases; small groups make accidental solutions and any 64-bit T reachable. " + MODEL},
    "C03": {"runs": [("verify", ["C03.small", "C03.large"])], "technique": "property-based testing: chains of parts with structured edits, differential against a reference verifier",
            "note": "Verdict compared with the part-by-part rules for chains up to 40 parts, edited semantically and bytewise, with counts that wrap 2^64. " + MODEL},
    "C04": {"runs": [("verify", ["C04.small", "C04.large"])], "technique": "property-based testing: metamorphic relation between full and compressed verification plus reference model",
            "note": "Challenge extraction, compressed verification and reconstructed result compared with the model and with full verification, for the right and for other challenges. " + MODEL},
    "C05": {"runs": [("verify", ["C05.derive", "C05.tiny", "C05.invalid", "C05.hashprime"])], "technique": "property-based testing: generated seeds against a reference derivation",
            "note": "Discriminant compared with the first prime of an independently written expansion for all sizes 8..1024 and seeds of 1..100 bytes. One-byte seeds whose periodic expansion holds no prime are outside the domain. " + MODEL},
    "C06": {"runs": [("arith", ["C06.blocks", "C06.composites", "C06.primes"])], "technique": "property-based testing: adversarial numbers of known primality against trial division and GMP",
            "note": "Blocks of consecutive integers below 2^64, constructed pseudoprimes (strong base 2, Carmichael, Lucas-type, squares, close primes) and primes up to 1024 bits, including primes that need many parameter searches. " + MODEL},
    "C08": {"runs": [("hostile", ["C08.api", "C08.deep", "C08.lengths", "C08.capi"])], "technique": "structured fuzzing under address and undefined-behaviour sanitizers, verdicts bounded by the reference verifier",
            "note": "Grammar-based hostile calls of every public entry point, exact-size heap buffers under ASan, hangs bounded by a per-case time limit. " + MODEL},
    "C07": {"runs": [("verify", ["C07.roundtrip", "C07.decode"])], "technique": "property-based testing: round trip, and mutated encodings against a reference codec",
            "note": "Encode compared byte for byte with the model; decode verdict and value compared in historical mode, uniqueness checked in strict mode. " + MODEL},
    "C09": {"runs": [("verify", ["C09.ops", "C09.reduce", "C09.pow"])], "technique": "property-based testing: group operations against textbook composition, with related operands and unreduced inputs",
            "note": "Composition, squaring, reduction, inverse and power compared with textbook composition (Cohen 5.4.7), both leading-zero-count paths. " + MODEL},
    "C10": {"runs": [("engine", ["C10.batch", "C10.loop", "C10.faults", "C10.slow"])], "technique": "property-based testing with fault injection in the generated gcd kernels, against textbook squaring",
            "note": "Every iteration the engine reports is compared with the model for each processor variant, one and two threads, with kernels that fail, lie or stall at generated calls. Orbits of known order give any iteration at once. " + MODEL},
    "C11": {"runs": [("timelord", ["C11.agree"])], "technique": "property-based testing: differential between all provers and the defining formula",
            "note": "Stand-alone, one-part, two-part, interruptible, serial and parallel provers (any table shape) compared byte for byte with x^(2^T/B) from the model; the many-part and hardware provers are compared part by part in C14 and C18. " + MODEL},
    "C12": {"runs": [("timelord", ["C12.run", "C12.live", "C12.large"])], "technique": "property-based testing: real loop and one-part prover against the reference model",
            "note": "Every stored checkpoint, the result and the proof compared with the model for generated counts, with the loop finished before or running beside the prover; counts up to 10^7 with checkpoints from a known orbit. " + MODEL},
    "C13": {"runs": [("timelord5k", ["C13.direct", "C13.live"]), ("timelord", ["C13.full", "C13.huge"])], "technique": "model-based property testing with generated switch points, request orders and concurrency",
            "note": "Whole protocol at 1/5000 of its size (hook) with the real loop and with modelled checkpoints; at production constants every table entry that provers read is checked by marked forms, and whole proofs around the switch. " + MODEL},
    "C14": {"runs": [("timelord", ["C14.many", "C14.long", "C14.storage", "C14.live"])], "technique": "stateful property-based testing with schedule fuzzing (starved and stalled threads) against the reference model",
            "note": "Real segment manager and storage threads fed by a modelled loop or by the real one; every part of every proof compared with the model and the whole offered to the verifier. Schedules are sampled, not enumerated. " + MODEL},
    "C15": {"runs": [("timelord", ["C15.fast", "C15.two", "C15.capacity"])], "technique": "property-based testing: marked forms written through the callbacks and read back through the provers' lookups",
            "note": "Each form carries its iteration number, so aliasing, misaddressing and overruns show. " + MODEL},
    "C16": {"runs": [("timelord", ["C16.pause", "C16.stop"])], "technique": "stateful property-based testing: generated pause/resume/stop histories under schedule fuzzing",
            "note": "Stops at generated moments with seeded delays at every synchronisation point; hangs are found by a 20 s limit. " + MODEL},
    "C17": {"runs": [("client_asan", ["C17.handshake", "C17.faults"]), ("client5k", ["C17.session", "C17.capacity"])], "technique": "stateful property-based testing: a generated timelord speaks to the real client process over TCP, with fragmentation, disconnections and malformed fields",
            "note": "Every message is parsed and verified against the reference model; the client runs in a child process at 1/5000 of the two-part protocol's size (hook), under ASan for the faulty peers. " + MODEL},
    "C18": {"runs": [("hw", ["C18.lies", "C18.proofs", "C18.chain"]), ("hw_asan", ["C18.client"])], "technique": "stateful property-based testing with a modelled chip: generated histories of good, corrupted, repeated, late and excessive values",
            "note": "The intake and proof assembly are driven directly, and the whole program runs between a generated timelord and a chip modelled behind the bus library; every part of every proof is compared with the model. After the last iteration of a session (2*10^9) no answer is demanded. " + MODEL},
    "C19": {"runs": [("hw", ["C19.coding", "C19.bus", "C19.pll", "C19.power", "C19.temp"])], "technique": "property-based testing: register coding against an independent bus and register model, round trips and monotonicity",
            "note": "The USB bridge's library is replaced by a model that decodes every transfer. The register layout is taken from the code's documentation, since no device is present. " + MODEL},
    "C23": {"runs": [("kernels", ["C23.partial", "C23.base", "C23.head", "C23.unsigned", "C23.yield", "C23.vec", "C23.mpz", "C23.words", "C23.fixed"])], "technique": "property-based testing: adversarial operands (quotient patterns, carries, boundary sizes) against GMP",
            "note": "Partial gcd, continued-fraction steps, vector integers, GMP wrapper and word helpers compared with GMP in every processor variant. The unused gpu_integer divide and gcd prototypes are outside. " + MODEL},
    "C20": {"runs": [("bindings", ["C20.create", "C20.prove", "C20.verify", "C20.decode"])], "technique": "property-based testing: differential between the native library, C, Rust and Python on generated valid and invalid inputs",
            "note": "All four bindings are built from the tree (the Rust crate with hand-written declarations in place of bindgen's) and must agree on values, verdicts and errors, and with the model. " + MODEL},
    "C22": {"runs": [("concurrent_tsan", ["C22.races"]), ("concurrent", ["C22.mix", "C22.long"]), ("bindings", ["C22.python"])], "technique": "property-based testing: generated mixes of calls on generated numbers of threads against each call alone, plain and under ThreadSanitizer",
            "note": "Calls of every native, C and Python entry point, on shared and separate inputs held in read-only memory. Schedules are sampled by the operating system; ThreadSanitizer finds races that did not happen to change a result. " + MODEL},
    "C25": {"runs": [("emu", ["C25.jobs", "C25.client"])], "technique": "stateful property-based testing: generated histories of jobs on the emulated engines against the known orbit, and whole sessions of the hardware client over the emulator",
            "note": "Every reading of every engine is compared with the model's form for the reported iteration, with injected errors at generated rates (at most one reading in 30 in whole sessions). Schedules are sampled by the operating system. " + MODEL},
    "C26": {"runs": [("hw", ["C26.options"])], "technique": "property-based testing: generated command lines against the documented ranges, with the device and the timelord modelled",
            "note": "The real main program runs in a child over the modelled bus; what it programs and whom it contacts is compared with the command line. Trailing garbage after numbers, repeated options and an engine mask of zero are unspecified and not generated. " + MODEL},
    "C27": {"runs": [("hw", ["C27.client"])], "technique": "stateful property-based testing: whole sessions between a generated timelord and a modelled chip under automatic clock adjustment, with accelerated time",
            "note": "The clock the program reads runs faster by a generated factor (interposed system_clock::now); every setting of the modelled clock generator is checked against the rule, every proof against the model. That the clock is raised is demanded only when the period passed more than 1200 readings ago. " + MODEL},
    "C24": {"runs": [("arith", ["C24.ops", "C24.text", "C24.cast", "C24.integer"])], "technique": "property-based testing: differential against the compiler's native 128-bit type",
            "note": "Every operator, mixed builtin operand, shift, text form and narrowing of the portable class compared with unsigned __int128; byte order helpers compared with shifts. " + MODEL},
    "C21": {"runs": [("verify", ["C21.shutdown"])], "technique": "property-based testing with fault injection: the watched file disappears, reappears or cannot be examined at a generated poll",
            "note": "The stat() call of the prover is interposed, so the file changes at an exact poll. Work left between polls is bounded by 65536 iterations. " + MODEL},
}
NOT_APPLICABLE = {}
HOOKS = {"guard": "CHIAVDF_VERIF_SCALE", "enable": "the timelord5k binary of lib/plan.py is compiled from /repo/src with -DCHIAVDF_VERIF_SCALE", "source_commits": ["7ed3a1d"]}
