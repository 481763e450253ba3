#!/usr/bin/env python3
"""Generate a `go build -overlay` file that puts a simulation seam under the
Go standard library: every file-system/clock/randomness system call that the
os, syscall and time packages make goes through syscall.SimCall, which is a
no-op passthrough unless the process is started as a simulated guest.

usage: gen.py OUTDIR   (writes OUTDIR/overlay.json and the transformed files)
"""
import json, os, re, subprocess, sys

out = os.path.abspath(sys.argv[1])
here = os.path.dirname(os.path.abspath(__file__))
os.makedirs(out, exist_ok=True)
goroot = subprocess.run(["go", "env", "GOROOT"], capture_output=True, text=True, check=True).stdout.strip()
src = goroot + "/src/"
repl = {}


def write(p, text):
    tmp = "%s.%d" % (p, os.getpid())  # several checks may generate at once
    with open(tmp, "w") as f:
        f.write(text)
    os.replace(tmp, p)


def emit(rel, text):
    p = os.path.join(out, rel.replace("/", "__"))
    write(p, text)
    repl[src + rel] = p


def split_args(s, i):
    """s[i] is just after '('; return (args, index after the matching ')')."""
    depth, start, args = 1, i, []
    while True:
        c = s[i]
        if c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
            if depth == 0:
                a = s[start:i].strip()
                if a:
                    args.append(a)
                return args, i + 1
        elif c == "," and depth == 1:
            args.append(s[start:i].strip())
            start = i + 1
        i += 1


def unwrap(a):
    m = re.match(r"^uintptr\((.*)\)$", a, re.S)
    return m.group(1) if m else a


# traps routed to the simulator, by the name the source uses
TRAPS = """SYS_FACCESSAT _SYS_faccessat2 SYS_FCHMODAT _SYS_fchmodat2 SYS_LINKAT SYS_OPENAT
SYS_READLINKAT SYS_SYMLINKAT SYS_UNLINKAT SYS_UTIMENSAT SYS_GETCWD SYS_CHDIR SYS_CLOSE
SYS_DUP SYS_DUP2 SYS_DUP3 SYS_FALLOCATE SYS_FCHDIR SYS_FCHMOD SYS_FCHOWNAT SYS_FCNTL SYS_FDATASYNC
SYS_FLOCK SYS_FSYNC SYS_GETDENTS64 SYS_MKDIRAT SYS_MKNODAT SYS_READ SYS_SYNC SYS_WRITE
SYS_FCHOWN SYS_FSTAT SYS_FSTATFS SYS_FTRUNCATE SYS_PREAD64 SYS_PWRITE64 SYS_RENAMEAT SYS_LSEEK
SYS_SENDFILE SYS_SPLICE SYS_STATFS SYS_SYNC_FILE_RANGE SYS_TRUNCATE SYS_NEWFSTATAT SYS_MMAP
SYS_MUNMAP SYS_FUTIMESAT SYS_UTIME SYS_UTIMES SYS_GETXATTR SYS_LISTXATTR SYS_UNAME
unlinkatTrap openatTrap readlinkatTrap mkdiratTrap fchownatTrap renameatTrap linkatTrap symlinkatTrap
fstatatTrap copyFileRangeTrap getrandomTrap SYS_GETPID SYS_GETPPID
fchmodat2Trap syscall.SYS_UTIMENSAT""".split()


def rewrite(text, qual):
    """Replace Syscall*(TRAP, ...) by SimCall(TRAP, ...) for the traps above."""
    res, i, n = [], 0, 0
    pat = re.compile(r"(?<![\w.])" + re.escape(qual) + r"((?:Raw)?[sS]yscall6?|rawSyscallNoError)\(")
    while True:
        m = pat.search(text, i)
        if not m:
            res.append(text[i:])
            return "".join(res), n
        if text[max(0, m.start() - 5):m.start()] == "func ":
            res.append(text[i:m.end()])
            i = m.end()
            continue
        args, j = split_args(text, m.end())
        if args[0] not in TRAPS:
            res.append(text[i:m.end()])
            i = m.end()
            continue
        call = m.group(1)
        fn = "SimCall2" if call == "rawSyscallNoError" else "SimCall"
        res.append(text[i:m.start()] + qual + fn + "(" + args[0] + ", " + ", ".join(unwrap(a) for a in args[1:]) + ")")
        i = j
        n += 1


def need(cond, what):
    if not cond:
        sys.exit("gen.py: overlay anchor not found: " + what)


def patch(rel, pairs):
    with open(src + rel) as f:
        t = f.read()
    for a, b in pairs:
        need(t.count(a) == 1, rel + ": " + a)
        t = t.replace(a, b)
    emit(rel, t)


with open(src + "syscall/zsyscall_linux_amd64.go") as f:
    t, n = rewrite(f.read(), "")
need(n > 45, "zsyscall_linux_amd64.go")
emit("syscall/zsyscall_linux_amd64.go", t)

for rel in ["at.go", "at_fstatat.go", "copy_file_range_unix.go", "fchmodat_linux.go", "utimes.go"]:
    with open(src + "internal/syscall/unix/" + rel) as f:
        t, n = rewrite(f.read(), "syscall.")
    if n:
        emit("internal/syscall/unix/" + rel, t)
need(src + "internal/syscall/unix/at.go" in repl, "at.go")

with open(os.path.join(here, "sim_syscall.go.txt")) as f:
    emit("syscall/sim_verif.go", f.read())

patch("internal/syscall/unix/fcntl_unix.go", [(
    "	val, errno := fcntl(int32(fd), int32(cmd), int32(arg))\n",
    "	if syscall.SimOn() {\n		r, _, e := syscall.SimCall(syscall.SYS_FCNTL, fd, cmd, arg)\n		if e != 0 {\n			return -1, e\n		}\n		return int(r), nil\n	}\n	val, errno := fcntl(int32(fd), int32(cmd), int32(arg))\n")])
patch("internal/syscall/unix/getrandom.go", [(
    "	ret, supported := vgetrandom(p, uint32(flags))\n",
    "	if syscall.SimOn() {\n		r, _, e := syscall.SimCall(getrandomTrap, unsafe.Pointer(unsafe.SliceData(p)), len(p), 0)\n		if e != 0 {\n			return 0, e\n		}\n		return int(r), nil\n	}\n	ret, supported := vgetrandom(p, uint32(flags))\n")])
patch("time/time.go", [(
    "func Now() Time {\n	sec, nsec, mono := runtimeNow()\n",
    "func Now() Time {\n	sec, nsec, mono := runtimeNow()\n	if syscall.SimOn() {\n		sec, nsec, mono = syscall.SimNow()\n	}\n"),
    ("import (\n", "import (\n	\"syscall\"\n"),
    ("		return subMono(runtimeNano()-startNano, t.ext)\n", "		return subMono(simNano()-startNano, t.ext)\n"),
    ("		return subMono(t.ext, runtimeNano()-startNano)\n", "		return subMono(t.ext, simNano()-startNano)\n"),
    ("func runtimeNano() int64\n", """func runtimeNano() int64

func simNano() int64 {
	if syscall.SimOn() {
		_, _, mono := syscall.SimNow()
		return mono
	}
	return runtimeNano()
}
""")])
# Deterministic runtime randomness (map iteration order, select, hash seeds): a
# constant, or one chosen by the byte after VERIF_RT= in the environment.
# os.CreateTemp names come from the simulator.
patch("os/tempfile.go", [(
    "func nextRandom() string {\n",
    "func nextRandom() string {\n	if syscall.SimOn() {\n		return strconv.FormatUint(uint64(uint32(syscall.SimRand())), 10)\n	}\n"),
    ("import (\n", "import (\n	\"syscall\"\n")])
patch("runtime/rand.go", [(
    "	seed := &globalRand.seed\n",
    "	seed := &globalRand.seed\n	if startupRand == nil {\n		startupRand = make([]byte, 16)\n	}\n	for i := range startupRand {\n		startupRand[i] = byte(i*37+11) ^ simRTSeed()\n	}\n"),
    ("// readTimeRandom stretches", "// simRTSeed returns the byte after VERIF_RT= in the environment, or 0.\nfunc simRTSeed() byte {\n	const key = \"VERIF_RT=\"\n	for i := argc + 1; argv_index(argv, i) != nil; i++ {\n		s := gostringnocopy(argv_index(argv, i))\n		if len(s) > len(key) && s[:len(key)] == key {\n			return s[len(key)]\n		}\n	}\n	return 0\n}\n\n// readTimeRandom stretches")])

# csweb: no real listener, and requests scheduled by the simulator
patch("net/dial.go", [(
    "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n",
    "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n	if syscall.SimOn() {\n		return simListen(network, address)\n	}\n")])
patch("net/http/server.go", [(
    "func (s *Server) Serve(l net.Listener) error {\n",
    "func (s *Server) Serve(l net.Listener) error {\n	if syscall.SimOn() {\n		return s.simServe(l)\n	}\n"),
    ("import (\n", "import (\n	\"syscall\"\n")])
for rel, name in [("syscall/sim_web_verif.go", "syscall"), ("net/sim_verif.go", "net"), ("net/http/sim_verif.go", "http")]:
    with open(os.path.join(here, "sim_web_%s.go.txt" % name)) as f:
        emit(rel, f.read())
# no preemption of a running goroutine by the clock, and a per-goroutine label
# that child goroutines inherit
patch("runtime/proc.go", [(
    "func preemptone(pp *p) bool {\n",
    "func preemptone(pp *p) bool {\n	if simNoPreemptOn {\n		return false\n	}\n")])
# worker pools are sized as on a machine with several processors
patch("runtime/debug.go", [
    ("	lock(&sched.lock)\n	ret := int(gomaxprocs)\n	if n <= 0 {\n", "	if simNoPreemptOn {\n		return 4\n	}\n	lock(&sched.lock)\n	ret := int(gomaxprocs)\n	if n <= 0 {\n"),
    ("	return int(numCPUStartup)\n", "	if simNoPreemptOn {\n		return 4\n	}\n	return int(numCPUStartup)\n")])
emit("runtime/sim_verif.go", """package runtime

import "unsafe"

var simNoPreemptOn bool

//go:linkname simNoPreempt syscall.simNoPreempt
func simNoPreempt() { simNoPreemptOn = true }

//go:linkname simLabel syscall.simLabel
func simLabel() unsafe.Pointer { return getg().labels }

//go:linkname simSetLabel syscall.simSetLabel
func simSetLabel(p unsafe.Pointer) { getg().labels = p }
""")

write(os.path.join(out, "overlay.json"), json.dumps({"Replace": repl}, indent=1))
