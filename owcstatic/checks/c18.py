"""C18: files are written only below the configured output directories."""
import ast
from ..report import Check
from .. import analyses as A
from ..ir import N
from ..paths import template, show_template, tail

OUT = ('FLOAT_MAPPED_DIRECTORY', 'FLOAT_CALIB_DIRECTORY', 'FLOAT_PLOTS_DIRECTORY')
# call name -> index of the file argument
WRITERS = {'scipy.io.savemat': 0, 'matplotlib.pyplot.savefig': 0, '.savefig': 0, 'numpy.save': 0, 'numpy.savez': 0,
           'numpy.savetxt': 0, 'numpy.savez_compressed': 0, '.to_csv': 0, '.to_pickle': 0, '.to_excel': 0, '.to_json': 0,
           '.tofile': 0, '.to_file': 0, 'hdf5storage.savemat': 0, 'pathlib.write_text': None, 'pathlib.write_bytes': None,
           'pathlib.touch': None, 'numpy.memmap': 0, 'matplotlib.pyplot.imsave': 0, 'pylab.savefig': 0}
FORBIDDEN = {'os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.rmdir', 'os.removedirs', 'os.renames', 'os.truncate',
             'shutil.rmtree', 'shutil.move', 'os.symlink', 'os.link', 'os.chmod', 'os.system', 'subprocess.run', 'subprocess.call',
             'subprocess.check_call', 'subprocess.Popen', 'subprocess.check_output', 'pathlib.unlink', 'pathlib.rename',
             'pathlib.replace', 'pathlib.rmdir', 'os.ftruncate'}
COPYERS = {'shutil.copy': 1, 'shutil.copyfile': 1, 'shutil.copy2': 1, 'shutil.copytree': 1}
OPENERS = {'builtins.open', 'io.open', 'gzip.open', 'bz2.open', 'pathlib.open', 'h5py.File', 'netCDF4.Dataset', 'codecs.open', 'os.open'}


def check_target(c, name, e, node, rule='written below an output directory'):
    t = template(node)
    inst = f"{name} writes {show_template(t)}"
    head = next(((k, v) for k, v in t if not (k == 'lit' and v in ('./', '.'))), None)
    if head is None or head[0] == 'node':
        c.und(rule, inst, 'file name not understood', A.where(e))
        return
    c.that(head[0] == 'cfg' and head[1] in OUT, rule, inst, f"first path component is {head}", A.where(e))
    tl = tail(t)
    has = ('param', 'float_name') in tl
    c.that(has or (None if any(k == 'node' for k, _ in tl) else False), 'file name contains the float name', inst, '', A.where(e))
    if any(k == 'lit' and '..' in v.split('/') for k, v in t):
        c.bad(rule, inst, "path leaves the directory with '..'", A.where(e))
    # the file must not coincide with an input file of the package
    src = [v for k, v in t if k == 'cfg' and (v.startswith('FLOAT_SOURCE_DIR') or v.startswith('HISTORICAL_DIR') or v == 'CONFIG_DIRECTORY')]
    c.that(not src, 'no input directory in an output path', inst, str(src), A.where(e))


def rule_writes(c, runs):
    for name, it in runs.items():
        for e in it.events:
            if e.kind != 'call':
                continue
            nm = e.name
            if nm in WRITERS:
                i = WRITERS[nm]
                args = list(e.args)
                if nm.startswith('.') and args and i is not None:
                    args = args[1:]
                kw = e.kwargs or {}
                node = args[i] if i is not None and len(args) > i else kw.get('fname') or kw.get('file_name') or kw.get('file') or (args[0] if args else None)
                if node is None:
                    c.und('written below an output directory', f"{name} {nm}", 'no file argument', A.where(e))
                else:
                    check_target(c, name, e, node)
            elif nm in COPYERS and len(e.args) > COPYERS[nm]:
                check_target(c, name, e, e.args[COPYERS[nm]])
            elif nm in OPENERS:
                mode = e.args[1] if len(e.args) > 1 else (e.kwargs or {}).get('mode')
                t = template(e.args[0]) if e.args else ()
                inst = f"{name} opens {show_template(t)}"
                if mode is None:
                    c.that(nm != 'netCDF4.Dataset' or True, 'opened for reading only', inst, 'default mode', A.where(e))
                elif mode.op == 'const' and isinstance(mode.args[0], str):
                    if any(ch in mode.args[0] for ch in 'wax+'):
                        check_target(c, name, e, e.args[0])
                    else:
                        c.ok('opened for reading only', inst, mode.args[0], A.where(e))
                else:
                    c.und('opened for reading only', inst, 'mode not constant', A.where(e))
            elif nm in ('os.makedirs', 'os.mkdir', 'pathlib.mkdir') and e.args:
                t = template(e.args[0])
                head = next(((k, v) for k, v in t if not (k == 'lit' and v in ('./', '.'))), None)
                c.that(None if head is None or head[0] != 'cfg' else head[1] in OUT, 'written below an output directory',
                       f"{name} makes directory {show_template(t)}", f"first path component is {head}", A.where(e))
            elif nm in FORBIDDEN:
                c.bad('nothing is deleted, renamed or handed to the shell', f"{name} {nm}", f"call of {nm}", A.where(e))


def rule_lint(c, runs):
    """The forbidden calls, syntactically, in every module (reached or not)."""
    nmod = 0
    for m in A.pkg().modules.values():
        nmod += 1
        alias = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    alias[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                for a in n.names:
                    alias[a.asname or a.name] = n.module + '.' + a.name
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                d = dotted(n.func, alias)
                if d in FORBIDDEN:
                    c.bad('nothing is deleted, renamed or handed to the shell', f"{m.name} {d}", f"call of {d}", f"{m.path}:{n.lineno}")
                elif isinstance(n.func, ast.Attribute) and n.func.attr in ('unlink', 'rmdir', 'write_text', 'write_bytes', 'rmtree'):
                    c.bad('nothing is deleted, renamed or handed to the shell', f"{m.name} .{n.func.attr}", '', f"{m.path}:{n.lineno}")
    c.ok('nothing is deleted, renamed or handed to the shell', 'all modules', f"{nmod} modules searched")


def dotted(f, alias):
    if isinstance(f, ast.Name):
        return alias.get(f.id, f.id)
    if isinstance(f, ast.Attribute):
        b = dotted(f.value, alias)
        return b + '.' + f.attr if b else None
    return None


def main():
    c = Check('C18', 'writes go only to the configured output places',
              'Every file-writing call reached from the four stages has its file name reduced to a template, which must start '
              'with one of the three output directory settings and contain the float name in its last component; files opened '
              'with open() must use a read mode; deleting, renaming and shell calls are forbidden in every module.',
              'All paths of all stages are covered, for any configuration.')
    runs = A.four()
    for it in runs.values():
        c.covered(it)
    c.rule(rule_writes, runs)
    c.rule(rule_lint, runs)
    c.assume('configured output directories are distinct from the input directories')
    return c.finish()
