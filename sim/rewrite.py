#!/usr/bin/env python3
"""Token rewriter: turns preprocessed (gcc -E) source of the Windows library
into LLP64 code that can be compiled for the simulator.  Only tokens whose
line marker names a file under one of the given roots are touched.

  long -> int (LLP64), long long / __int64 kept 64 bit, NNNL -> NNN
  pthread_*/sem_*/sched_*/cpu_set_t/pid_t/timespec -> w32_ prefix
  malloc family -> sim_ heap; errno -> per simulated thread errno
  __asm__ -> preceded by a scheduling point
"""
import sys, re
src, dst, heap = sys.argv[1], sys.argv[2], sys.argv[3]
roots = sys.argv[4:]
TOK = re.compile(r'''"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'|[A-Za-z_$][A-Za-z0-9_$]*|\.?[0-9](?:[eEpP][+-]|[A-Za-z0-9_.'])*|[ \t\f]+|\n|.''', re.S)
NUM = re.compile(r'^((?:0[xX][0-9a-fA-F]+|0[bB][01]+|[0-9]+))([uUlL]*)$')
PFX = re.compile(r'^(?:pthread_|sem_|sched_|_pthread_|PTHREAD_|SCHED_|SEM_|CPU_)')
MAP = {'cpu_set_t': 'w32_cpu_set_t', 'pid_t': 'w32_pid_t', 'timespec': 'w32_timespec',
       '__errno_location': 'sim_errno_loc', 'exit': 'sim_exit'}
if heap == 'simheap':
    MAP.update({'malloc': 'sim_malloc', 'calloc': 'sim_calloc', 'realloc': 'sim_realloc',
                'free': 'sim_free', 'strdup': 'sim_strdup', '_strdup': 'sim_strdup',
                '__strdup': 'sim_strdup'})
else:
    MAP.update({'malloc': 'simh_malloc', 'calloc': 'simh_calloc', 'realloc': 'simh_realloc',
                'free': 'simh_free', 'strdup': 'simh_strdup', '_strdup': 'simh_strdup'})
MARK = re.compile(r'^# (\d+) "([^"]*)"(.*)$')
out = []
ours = False

def flush(buf):
    """rewrite a list of tokens"""
    n = len(buf)
    def nxt(i):
        j = i + 1
        while j < n and buf[j].isspace():
            j += 1
        return j
    i = 0
    prev = ''
    while i < n:
        t = buf[i]
        c = t[0]
        if c.isspace():
            out.append(t); i += 1; continue
        if c.isalpha() or c == '_' or c == '$':
            if t == 'long':
                j = nxt(i)
                a = buf[j] if j < n else ''
                k = nxt(j) if j < n else n
                b = buf[k] if k < n else ''
                if a == 'long':
                    out.append('long '); out.append('long'); i = j + 1; prev = 'long'; continue
                if a == 'double':
                    out.append('long')
                elif a == 'int' or (a in ('unsigned', 'signed') and b == 'int'):
                    pass
                elif a == '__int64':
                    pass
                elif prev == 'int':
                    pass
                else:
                    out.append('int')
            elif t in ('__int64', '_int64'):
                out.append('long long')
            elif t in ('__asm__', '__asm', 'asm') and prev in (';', '{', '}', ')') :
                out.append('sim_asm_point(); ' + t)
            elif t in MAP and not (prev in ('.', '>') ):
                out.append(MAP[t])
            elif PFX.match(t):
                out.append('w32_' + t)
            else:
                out.append(t)
        elif c.isdigit():
            m = NUM.match(t)
            if m and m.group(2).upper() in ('L', 'UL', 'LU'):
                t = m.group(1) + ('U' if 'U' in m.group(2).upper() else '')
            out.append(t)
        else:
            out.append(t)
        prev = t
        i += 1

buf = []
with open(src, errors='replace') as f:
    for line in f:
        if line.startswith('#'):
            m = MARK.match(line)
            if m:
                flush(buf); buf = []
                name = m.group(2)
                ours = any(name.startswith(r) for r in roots)
                fl = '' if ours else m.group(3)
                # flag 3 (system header) would hide instrumentation warnings only
                out.append('# %s "%s"%s\n' % (m.group(1), name, m.group(3)))
                continue
            flush(buf); buf = []
            out.append(line)
            continue
        if ours:
            buf.extend(TOK.findall(line))
        else:
            if buf:
                flush(buf); buf = []
            out.append(line)
flush(buf)
with open(dst, 'w') as f:
    f.write(''.join(out))
