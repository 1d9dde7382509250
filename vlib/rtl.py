"""Peak designs through the Magma family, coreir and verilator, in batches."""
import os, re, shutil, subprocess, sys, traceback


def to_verilog(make, path):
    """Run make() (giving the circuit) and compile it, in a child process: magma and coreir keep
    process-wide state and coreir ends the process on errors. Gives the error text or None."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            import signal
            signal.setitimer(signal.ITIMER_REAL, 0)
            null = os.open(path + '.log', os.O_CREAT | os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            import magma as m
            c = make()
            m.compile(path, c, output='coreir-verilog')
            os.write(w, b'ok')
        except BaseException:
            os.write(w, traceback.format_exc()[-3000:].encode())
        finally:
            os._exit(0)
    os.close(w)
    msg = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        msg += b
    os.close(r)
    os.waitpid(pid, 0)
    if msg == b'ok':
        return None
    return msg.decode() or 'the generator process died:\n' + open(path + '.log', errors='replace').read()[-2000:]


def modules(text):
    return re.findall(r'^module\s+\\?(\w+)', text, re.M)


def ports(text, top):
    """{name: (direction, width)} of a module."""
    m = re.search(r'^module\s+' + re.escape(top) + r'\s*\((.*?)\);', text, re.M | re.S)
    res = {}
    for d, hi, lo, n in re.findall(r'(input|output)\s+(?:\[(\d+):(\d+)\]\s+)?(\w+)', m.group(1)):
        res[n] = (d, int(hi) - int(lo) + 1 if hi else 1)
    return res


def rename(text, top, tag):
    for n in sorted(set(modules(text))):
        if n != top:
            text = re.sub(r'(?<![\w.])' + n + r'\b(?=\s*(#|\(|\w))', f'{tag}_{n}', text)
    return text


def cmd(*args, cwd):
    r = subprocess.run(args, capture_output=True, text=True, cwd=cwd)
    if r.returncode:
        raise RuntimeError(f'{args[0]}: ' + (r.stderr + r.stdout)[-2000:])


class Batch:
    """Several designs in one simulator; each is driven by its own list of cycles."""
    def __init__(self, wd):
        self.wd = wd
        self.des = []            # (top, verilog text, ports)

    def add(self, top, text):
        self.des.append((top, rename(text, top, f'm{len(self.des)}'), ports(text, top)))
        return self.des[-1][2]

    def build(self):
        v, decl, inst, cc = [], [], [], []
        for i, (top, text, ps) in enumerate(self.des):
            v.append(text)
            conns = []
            for n, (d, w) in ps.items():
                decl.append(f'{d} [{w - 1}:0] d{i}_{n}' if w > 1 else f'{d} d{i}_{n}')
                conns.append(f'.{n}(d{i}_{n})')
            inst.append(f'{top} i{i}({", ".join(conns)});')
            ins = [n for n, (d, _) in ps.items() if d == 'input' and n not in ('CLK', 'ASYNCRESET')]
            outs = [n for n, (d, _) in ps.items() if d == 'output']
            cc.append(f'case {i}: {{ int n; rd(n); ' + (f't.d{i}_CLK=0; t.d{i}_ASYNCRESET=1; t.eval(); t.d{i}_ASYNCRESET=0; t.eval(); ' if 'CLK' in ps else '') +
                      'for (int c=0;c<n;c++) { unsigned long long x, rst; rd(rst); ' +
                      ''.join(f'rd(x); t.d{i}_{n}=x; ' for n in ins) +
                      (f'if (rst) {{ t.d{i}_ASYNCRESET=1; t.eval(); t.d{i}_ASYNCRESET=0; }} ' if 'CLK' in ps else '') + 't.eval(); ' +
                      ''.join(f'printf("%llu ", (unsigned long long)t.d{i}_{n}); ' for n in outs) + 'printf("\\n"); ' +
                      (f't.d{i}_CLK=1; t.eval(); t.d{i}_CLK=0; t.eval(); ' if 'CLK' in ps else '') + '} break; }')
        with open(os.path.join(self.wd, 'top.v'), 'w') as f:
            f.write('\n'.join(v) + '\nmodule top(' + ', '.join(decl) + ');\n' + '\n'.join(inst) + '\nendmodule\n')
        with open(os.path.join(self.wd, 'main.cpp'), 'w') as f:
            f.write('#include "Vtop.h"\n#include "verilated.h"\n#include <cstdio>\n#include <iostream>\n'
                    'template<class T> void rd(T& x){ std::cin >> x; if(!std::cin) exit(3); }\n'
                    'int main(){ Vtop t; int d; t.eval(); while (std::cin >> d) { switch (d) {\n' + '\n'.join(cc) + '\n} } return 0; }\n')
        obj = os.path.join(self.wd, 'vobj')
        cmd('verilator', '--cc', '--exe', '--flatten', '--output-split', '0', '-Wno-fatal', '-Wno-lint', '-Wno-style', '--top-module', 'top',
            '--Mdir', obj, 'top.v', 'main.cpp', cwd=self.wd)
        # the simulator's own library, compiled once per worker
        keep = [os.path.join(os.path.dirname(self.wd), f) for f in ('verilated.o', 'verilated_threads.o')]
        for k in keep:
            if os.path.exists(k):
                shutil.copy2(k, obj)
                os.utime(os.path.join(obj, os.path.basename(k)))
        cmd('make', '-f', 'Vtop.mk', 'VM_PARALLEL_BUILDS=0', 'OPT_FAST=-O0', 'OPT_SLOW=-O0', 'OPT_GLOBAL=-O0', cwd=obj)
        for k in keep:
            f = os.path.join(obj, os.path.basename(k))
            if not os.path.exists(k) and os.path.exists(f):
                shutil.copy2(f, k)

    def run(self, stims):
        """stims: per design the list of (reset before the cycle, {input: int}); gives per design the list of {output: int}."""
        lines = []
        for i, st in enumerate(stims):
            ins = [n for n, (d, _) in self.des[i][2].items() if d == 'input' and n not in ('CLK', 'ASYNCRESET')]
            lines.append(f'{i} {len(st)}')
            for rst, vals in st:
                lines.append(' '.join([str(int(rst))] + [str(vals[n]) for n in ins]))
        r = subprocess.run([os.path.join(self.wd, 'vobj', 'Vtop')], input='\n'.join(lines), capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError(f'simulator ended with {r.returncode}: {r.stderr[-500:]}')
        out = iter(r.stdout.splitlines())
        res = []
        for i, st in enumerate(stims):
            outs = [n for n, (d, _) in self.des[i][2].items() if d == 'output']
            res.append([dict(zip(outs, map(int, next(out).split()))) for _ in st])
        return res
