"""Per-property build configuration of the explorers."""
DEFAULT = dict(
    cxx="clang++",
    flags=["-std=c++14", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow,nonnull-attribute", "-fno-sanitize-recover=undefined",
           "-fsanitize-ignorelist=" + __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "ignore.txt"),
           "-DDART_HAS_RAPIDJSON=1", "-DDART_HAS_YAML=1", "-w", "-pthread"],
    libs=["-Wl,--wrap=posix_memalign", "-lyaml"],
    budget=dict(quick=400, thorough=3000),
    assumptions=["bounds of each space as listed; one compiler (clang 18, -O1), x86-64 little endian, C++14 build of the headers",
                 "AddressSanitizer and UndefinedBehaviorSanitizer report memory errors reached by an execution"],
)
TSAN = dict(glob="race/C16*.cpp", flags=["-std=c++14", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-DMC_TSAN", "-DDART_HAS_RAPIDJSON=1", "-DDART_HAS_YAML=1", "-w", "-pthread"],
            support_flags=["-std=c++14", "-O2", "-g1", "-DMC_TSAN", "-w", "-pthread"], shared=["sched.cpp"])
CONFIG = {
    "C16": dict(shared=["sched.cpp"], variants=[TSAN], assumptions=["threads communicate through the reference counter alone, which the race-detecting build checks on every schedule it runs: so interleavings at reference count operations are all there are",
        "sequentially consistent execution of the counter's operations"]),
    "C18": dict(extra_flags=["-O0"], extra_libs=["-Wl,--wrap=malloc"], repo_src=["src/heap.cc", "src/buffer.cc", "src/generic.cc"]),
    "C19": dict(extra_flags=["-O0"]),
    "C20": dict(extra_flags=["-O0"]),
    "C21": dict(repo_src=["src/heap.cc", "src/buffer.cc", "src/generic.cc"]),
    "C22": dict(repo_src=["src/heap.cc", "src/buffer.cc", "src/generic.cc"], glob="harness/C22*.cpp"),
    "C23": dict(extra_flags=["-std=c++17"]),
}
