"""Inventory of every library function and object the sources mention, classified by what it touches. Rules: files,
directories, the environment and other processes are touched only by implementations of the FileSystem interface (their
methods, and functions only they use), and there nothing that changes files is used; library functions that are neither
known to be harmless nor known to touch the world are reported as undecided. The Unix implementation opens exactly the
directory and the file it is asked for (abstract interpretation: the path given to the library is the argument)."""
import re
from .. import lint
from ..lab import *
from ..interp import Client

READS = {'opendir', 'readdir', 'closedir', 'readdir_r', 'scandir', 'stat', 'fstat', 'lstat', 'access', 'open', 'openat', 'read', 'close',
         'getcwd', 'realpath', 'fopen', 'fdopen', 'fread', 'fgets', 'fclose', 'feof', 'ferror', 'fseek', 'ftell', 'mmap', 'munmap', 'glob',
         'globfree', 'readlink', 'getenv', 'secure_getenv', 'fgetc', 'getc', 'pread', 'lseek', 'dirfd', 'faccessat', 'statx', 'fstatat'}
CHANGES = {'remove', 'unlink', 'rename', 'mkdir', 'rmdir', 'creat', 'truncate', 'ftruncate', 'link', 'symlink', 'chmod', 'chown', 'write',
           'fwrite', 'fputs', 'fputc', 'fprintf', 'putc', 'tmpfile', 'mkstemp', 'mkdtemp', 'system', 'popen', 'fork', 'execv', 'execve',
           'execl', 'execlp', 'execvp', 'posix_spawn', 'kill', 'chdir', 'setenv', 'putenv', 'unsetenv', 'freopen', 'utime', 'utimes',
           'fflush', 'fsync', 'pwrite', 'ioctl', 'socket', 'connect', 'send', 'sendto', 'clearenv'}
HARMLESS = {'iconv', 'iconv_open', 'iconv_close', 'strlen', 'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'strchr', 'strrchr', 'strstr',
            'memcpy', 'memmove', 'memset', 'memcmp', 'memchr', 'strerror', '__errno_location', '__assert_fail', 'isalpha', 'isdigit', 'isspace',
            'isalnum', 'isupper', 'islower', 'isxdigit', 'ispunct', 'isprint', 'toupper', 'tolower', 'abort', 'atoi', 'atol', 'strtol', 'strtoul',
            'malloc', 'free', 'calloc', 'realloc', 'strdup', 'abs', 'labs', 'strcpy', 'strncpy', 'strcat', 'strcoll', 'strspn', 'strcspn',
            'strpbrk', 'isblank', 'iscntrl', 'isgraph', 'strnlen', 'exit', '_exit', 'snprintf', 'sprintf', 'sscanf', 'printf', 'puts', 'putchar',
            'vsnprintf', 'time', 'clock', 'operator new', 'operator delete', 'qsort', 'bsearch', 'strerror_r', 'perror'}
CHANGING_FS = {'remove', 'remove_all', 'rename', 'create_directory', 'create_directories', 'copy', 'copy_file', 'resize_file', 'permissions',
               'create_symlink', 'create_hard_link', 'last_write_time', 'current_path', 'create_directory_symlink', 'copy_symlink'}
STREAMS = {'std::basic_ifstream': 'reads', 'std::basic_filebuf': 'reads', 'std::basic_ofstream': 'changes', 'std::basic_fstream': 'changes',
           'std::ifstream': 'reads', 'std::ofstream': 'changes', 'std::fstream': 'changes'}
PATHONLY = {'path', 'directory_entry', 'filesystem_error'}


def classify(q):
    """'reads', 'changes', '' (harmless) or None (unknown)"""
    b = q[5:] if q.startswith('std::') else q[2:] if q.startswith('::') else q
    if q.startswith('std::filesystem::'):
        parts = q.split('::')
        if parts[2] in CHANGING_FS:
            return 'changes'
        if parts[2] in PATHONLY:
            # a path is only a text, an entry looks at the file
            return '' if parts[2] != 'directory_entry' or parts[-1] in ('path', 'operator const std::filesystem::path &') else 'reads'
        return 'reads'
    for s, k in STREAMS.items():
        if q == s or q.startswith(s + '::'):
            return k
    if '::' not in b:
        if b in READS:
            return 'reads'
        if b in CHANGES and (q == b or b not in ('remove', 'rename') or False):
            return 'changes'
        if b in HARMLESS:
            return ''
        if q.startswith('std::'):
            return ''
        return None
    if q.startswith(('std::', '__gnu_cxx::', 'tinygettext::', 'tgsa', 'boost::')):
        return ''
    return None


class Paths(Client):
    def __init__(self):
        self.seen = []

    def on_lib(self, ip, e, f, st, obj, args):
        q = f['q']
        opens = e.get('e') == 'ctor' and q.endswith('(ctor)') and OPENS.match(q) or obj is not None and q in OPEN_METHODS or \
            obj is None and q in OPEN_FUNCS
        pt = f.get('pt', [])
        if q == 'std::make_unique':
            of = e['t'].args[0] if e['t'].args else None
            opens = of is not None and OPENS.match(of.name)
        if not opens or not args or not pt:
            return
        t = pt[0]
        if t.k == 'ref' and t.to.rec() == e['t'].rec() and e.get('e') == 'ctor':
            return                          # a copy
        while t.k == 'ref' and t.to.k == 'ref':
            t = t.to
        if t.rec() == 'std::filesystem::path':
            v = ip.read(st, args[0]) if args[0].op in LOCOPS else args[0]
            v = v.a[0] if v.op == 'path' else v
        elif t.rec() in ('std::basic_string', 'std::basic_string_view') or t.k in ('ptr', 'arr') or t.k == 'ref' and t.to.k in ('ptr', 'arr'):
            v = ip.models.text(st, args[0], t, e)
        else:
            return
        self.seen.append((q, v, st.imp, ip.where(e), list(args[1:])))


OPENS = re.compile(r'std::basic_(ifstream|fstream|filebuf)|std::filesystem::(recursive_)?directory_iterator')
OPEN_METHODS = {'std::basic_ifstream::open', 'std::basic_fstream::open', 'std::basic_filebuf::open'}
OPEN_FUNCS = {'fopen', 'opendir', 'open', 'std::fopen', 'scandir'}


def check(ctx):
    prog = ctx.prog
    ctx.floor('world', 50)
    impls = lint.derived(prog, NS + 'FileSystem')
    if not impls:
        raise Broken('no implementation of FileSystem found')
    roots = {f['m'] for f in prog.funcs.values() if f.get('cls') in impls}
    allowed = lint.only_from(prog, roots)
    names = {}
    for f, n, q, m in lint.refs(prog):
        if m in prog.funcs or q in prog.globals:
            continue
        names.setdefault(q, []).append((f, n))
    for q, us in sorted(names.items()):
        k = classify(q)
        if k is None:
            if us[0][1].get('e') == 'global':
                k = ''
        if k is None:
            ctx.undecided('world', q, lint.where(*us[0]), 'not classified')
        elif k == '':
            ctx.ok('world', q, lint.where(*us[0]))
        elif k == 'changes':
            ctx.bad('world', q, lint.where(*us[0]), '%s changes the outside world' % q)
        else:
            out = [(f, n) for f, n in us if f['m'] not in allowed]
            if out:
                ctx.bad('world', q, lint.where(*out[0]), '%s is used outside of the FileSystem implementations' % q)
            else:
                ctx.ok('world', q, lint.where(*us[0]))
    ctx.note('names_mentioned', len(names))
    # a std::rename, std::remove(const char*)
    for q in ('std::remove', 'std::rename'):
        for f, n in names.get(q, []):
            t = n['f'].get('pt') or []
            if t and t[0].k == 'ptr':
                ctx.bad('world', q + ' (file)', lint.where(f, n), '%s changes the outside world' % q)
    # what is opened
    for name in ('open_directory', 'open_file'):
        for cls in sorted(impls):
            for f in prog.byq.get(cls + '::' + name, []):
                if f.get('body') is None or '/src/' not in f['file'] and '/include/' not in f['file']:
                    continue
                c = Paths()
                ip, st = start(prog, c)
                ip.use_memo = False
                args = sym_args(ip, st, f)
                want = ip.read(st, args[0], f['params'][0]['t'].to) if f['params'][0]['t'].k == 'ref' else args[0]
                run(ip, st, f, object_at(ip, 'this', rec_ty(cls)), args)
                key = '%s::%s opens what it is asked for' % (cls.replace(NS, ''), name)
                if not c.seen:
                    ctx.undecided('path', key, ctx.where(f), 'nothing is opened by a known function')
                for q, v, imp, w, rest in c.seen:
                    if v is want:
                        ctx.ok('path', key, w)
                    else:
                        ctx.judge(None if imp or unknown(v) or v.op == 'y' else False, 'path', key, w, 'opens %s' % show(v)[:120])
