"""Turns a harness TU (which includes the real headers of /repo) into LLVM IR.

Nothing of /repo is rewritten: the compiler front end that builds the tests
(clang++-18, same language flags, same forced include) produces the IR of the
functions, and `opt` only inlines library/contract-free functions and cleans up.
"""
import os, re, subprocess, hashlib, sys

REPO = os.environ.get('VC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
PREFIX = os.path.join(VERIF, 'lvc', 'scalar_prefix.h')
BASE = ['-std=c++17', '-stdlib=libc++', '-include', PREFIX, '-I', REPO, '-I', os.path.join(VERIF, 'tu'),
        '-msse', '-msse2', '-msse3', '-mssse3', '-msse4.1', '-msse4.2', '-mavx', '-mavx2',
        '-D_FILE_OFFSET_BITS=64', '-fno-access-control', '-w']

PASSES = ('always-inline,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg),'
          'always-inline,function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,'
          'instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa),globaldce')

# library functions that are kept as calls (they have a summary in lib.py or are stepped into)
KEEP = re.compile(r'^(?:.*[ *&])?std::__1::(?:vector<.*>::(?:~?vector|resize|push_back|emplace_back|insert|assign|'
                  r'operator=|reserve|erase|clear|pop_back|shrink_to_fit|swap)(?:\[abi:\w+\])?(?:<.*>)?\('
                  r'|(?:copy|fill|fill_n|sort|nth_element|reverse|stable_sort|unique|find|find_if)(?:\[abi:\w+\])?<|'
                  r'(?:basic_)?(?:string|ostream|istream|ios|stringbuf|filebuf|fstream|ofstream)|__throw_|function<|'
                  r'__function::|__hash_table|__tree|unordered_|basic_|operator<<|deque<.*>::(?!~?(?:size|operator\[\]|begin|end)\b)|__introsort|__nth_element|__sort|__split_buffer|map<|set<)')


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode != 0:
        raise BuildError('%s failed:\n%s' % (cmd[0], r.stderr[-4000:]))
    return r.stdout


def demangle(names):
    if not names:
        return {}
    out = run(['llvm-cxxfilt-18'], input='\n'.join(names) + '\n').split('\n')
    return dict(zip(names, out))


def short(d):
    """strip libc++ abi tags"""
    return re.sub(r'\[abi:\w+\]', '', d)


DEFRE = re.compile(r'^define ([^@]*)@("[^"]+"|[\w.$]+)\((.*)$', re.M)


def compile_ir(src, inline_cmm=None, keep_extra=None, extra_flags=(), use_std_kept=True):
    """-> (ir text, {mangled: demangled}). inline_cmm: predicate on demangled name of non-std
    function that says whether it is inlined in the IR (all others stay calls)."""
    os.makedirs(BUILD, exist_ok=True)
    key = os.path.basename(src).replace('.cpp', '') + '-%d' % os.getpid()
    raw = os.path.join(BUILD, key + '.raw.ll')
    out = os.path.join(BUILD, key + '.ll')
    run(['clang++-18'] + BASE + list(extra_flags) +
        ['-DVC_SYMBOLIC=1', '-O1', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', src, '-o', raw])
    text = open(raw).read()
    names = [m.group(2).strip('"') for m in DEFRE.finditer(text)]
    dem = demangle(names)

    def fix(m):
        n = m.group(2).strip('"')
        d = short(dem[n])
        line = m.group(0)
        isstd = '_ZNSt3__1' in n[:9] or '_ZNKSt3__1' in n[:10] or n.startswith('_ZSt') or n.startswith('_ZNSt') or n.startswith('_ZNKSt')
        if isstd:
            inl = not (use_std_kept and KEEP.match(d))
        else:
            inl = bool(inline_cmm and inline_cmm(d))
        if keep_extra and keep_extra(d):
            inl = False
        if inl:
            line = re.sub(r'( #\d+)( comdat| align| personality| \{)', r'\1 alwaysinline\2', line, count=1)
        else:
            line = re.sub(r'( #\d+)( comdat| align| personality| \{)', r'\1 noinline\2', line, count=1)
        return line

    text = DEFRE.sub(fix, text)
    # attribute groups that force the opposite decision would be rejected
    text = re.sub(r'^(attributes #\d+ = \{.*?)\b(noinline|alwaysinline|inlinehint|optnone)\b', r'\1', text, flags=re.M)
    open(raw, 'w').write(text)
    run(['opt-18', '-S', '-passes=' + PASSES, raw, '-o', out])
    ir = open(out).read()
    os.unlink(raw)
    os.unlink(out)
    alln = set(re.findall(r'@(_Z[\w.$]+)', ir))
    dem2 = demangle(sorted(alln))
    return ir, {k: short(v) for k, v in dem2.items()}


def native(src, out, flags=('-O1',)):
    os.makedirs(BUILD, exist_ok=True)
    run(['clang++-18'] + BASE + list(flags) + ['-DVC_NATIVE=1', src, os.path.join(VERIF, 'lvc', 'vcrt.cpp'), '-o', out, '-rdynamic', '-ldl'])
