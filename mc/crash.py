"""
stopping the implementation at every point of an operation

`points(op, at)` runs `op()` and calls `at(k)` in a forked child of this process at each new point
of its execution; a point is a line of pynare about to be executed, together with the functions
that lead there (recursion counted once). What `at` does (interrupt the operation, or run
another one meanwhile) happens in the child, so every point is reached from the same history and
the operation itself is run only once. The child hands back what it found, pickled.
"""
import functools
import os
import pickle
import sys
import types

import numpy as np


class Stop(KeyboardInterrupt):
    """what ctrl-c raises"""


def package():
    import pynare
    return os.path.dirname(os.path.abspath(pynare.__file__)) + os.sep


def signature(frame, root):
    """the line about to be executed and the functions that lead there"""
    seen, names = set(), []
    f = frame.f_back
    while f is not None:
        c = f.f_code
        if c.co_filename.startswith(root) and c not in seen:
            seen.add(c)
            names.append(id(c))
        f = f.f_back
    return frame.f_code, frame.f_lineno, tuple(names)


def points(op, at, every=None, only=None, sig=signature, limit=None, seen=None,
           visits=1):
    """
    -> (result of op, [(k, where, what the child handed back)]). `at(k)` is called in the child
    inside the operation, at the first `visits` times a point is reached; whatever it raises
    unwinds the operation; `seen` is told what each child
    hands back. In a child this returns with its end of the pipe as the third value
    """
    root, known, found, told = package(), {}, [], seen
    count = [0]
    state = {'child': None}

    def local(frame, event, arg):
        if event != 'line' or state['child'] is not None:
            return local
        s = sig(frame, root)
        if known.get(s, 0) >= visits:
            return local
        known[s] = known.get(s, 0) + 1
        k = count[0]
        count[0] += 1
        if (every and k % every) or (only is not None and k not in only) \
                or (limit is not None and len(found) >= limit):
            return local
        where = f'{os.path.relpath(frame.f_code.co_filename, root)}:{frame.f_lineno}'
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            sys.settrace(None)
            state['child'] = w
            frame.f_trace = None
            at(k)           # may raise: that's the interruption
            return None
        os.close(w)
        data = b''
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            data += b
        os.close(r)
        os.waitpid(pid, 0)
        value = pickle.loads(data) if data else {'died': True}
        found.append((k, where, value))
        if told is not None:
            told(value)
        return local

    def trace(frame, event, arg):
        if state['child'] is None and frame.f_code.co_filename.startswith(root):
            return local
        return None

    old = sys.gettrace()
    sys.settrace(trace)
    try:
        result = ('ok', op())
    except BaseException as e:
        result = ('error', e)
    finally:
        sys.settrace(old)
    return result, found, state['child']


def leave(w, value):
    """the child hands back `value` and ends"""
    try:
        data = pickle.dumps(value)
        while data:
            n = os.write(w, data)
            data = data[n:]
    finally:
        os._exit(0)


def explore(op, at, after, **kw):
    """
    run `op` with `at(k)` at each point; `after(result, k)` looks at the outcome in the child
    and returns what is found, which is what this returns for every point
    """
    here = {}

    def there(k):
        here['k'] = k
        at(k)

    result, found, w = points(op, there, **kw)
    if w is not None:
        try:
            value = after(result, here['k'])
        except BaseException as e:
            value = {'harness': repr(e)}
        leave(w, value)
    return result, found


# ---- what an object holds

def content(obj, skip=()):
    """a hashable description of everything reachable from `obj` (ids replaced by visit order)"""
    order, out, todo = {}, [], [obj]

    def add(v):
        todo.append(v)

    while todo:
        o = todo.pop()
        if o is None or isinstance(o, (bool, int, float, complex, str, bytes)):
            out.append((type(o).__name__, repr(o)))
            continue
        if isinstance(o, np.generic):
            out.append(('np', repr(o)))
            continue
        if id(o) in order:
            out.append(('seen', order[id(o)]))
            continue
        order[id(o)] = len(order)
        if isinstance(o, np.ndarray):
            if o.dtype == object:
                out.append((type(o).__name__, o.shape))
                for v in o.flat:
                    add(v)
            else:
                out.append((type(o).__name__, o.shape, o.dtype.str, o.tobytes()))
        elif isinstance(o, dict):
            out.append(('dict', len(o)))
            for k, v in o.items():
                add(k)
                add(v)
        elif isinstance(o, (list, tuple)):
            out.append((type(o).__name__, len(o)))
            for v in o:
                add(v)
        elif isinstance(o, (set, frozenset)):
            out.append(('set', tuple(sorted(map(repr, o)))))
        elif isinstance(o, types.FunctionType):
            out.append(('function', o.__module__, o.__qualname__, o.__name__))
            if not (o.__module__ or '').startswith('pynare'):
                continue
            for c in o.__closure__ or ():
                try:
                    add(c.cell_contents)
                except ValueError:
                    out.append('empty')
        elif isinstance(o, functools.partial):
            add(o.func)
            add(o.args)
            add(o.keywords)
        elif isinstance(o, types.MethodType):
            out.append(('method', o.__func__.__qualname__))
            add(o.__self__)
        elif isinstance(o, (type, types.ModuleType, types.BuiltinFunctionType)):
            out.append((type(o).__name__, getattr(o, '__name__', '')))
        else:
            out.append((type(o).__module__, type(o).__qualname__))
            d = getattr(o, '__dict__', None)
            if d:
                for k, v in d.items():
                    if k not in skip:
                        out.append(k)
                        add(v)
    return hash(tuple(out))


def kept(f):
    """what a function keeps between calls"""
    out = []
    if hasattr(f, 'cache_info'):
        out.append(tuple(f.cache_info()))
    for d in getattr(f, '__defaults__', None) or ():
        if isinstance(d, (dict, list, set)):
            out.append(d)
    d = {k: v for k, v in getattr(f, '__dict__', {}).items() if k != '__wrapped__'} \
        if isinstance(f, types.FunctionType) else {}
    if d:
        out.append(d)
    return out


def global_content():
    """what modules and classes of pynare hold themselves"""
    things = {}
    for name, mod in sorted(sys.modules.items()):
        if mod is None or not (name == 'pynare' or name.startswith('pynare.')):
            continue
        for k, v in sorted(vars(mod).items(), key=lambda kv: kv[0]):
            if k.startswith('__') or isinstance(v, types.ModuleType):
                continue
            if isinstance(v, type):
                if v.__module__ == name:
                    things[name, k] = {a: b for a, b in vars(v).items()
                                       if not a.startswith('__') and not callable(b)
                                       and not isinstance(b, (classmethod, staticmethod, property,
                                                              functools.cached_property))
                                       and type(b).__name__ not in
                                       ('getset_descriptor', 'member_descriptor', '_abc_data')}
                    for a, b in vars(v).items():
                        f = getattr(b, '__func__', getattr(b, 'fget', getattr(b, 'func', b)))
                        if kept(f):
                            things[name, k, a] = kept(f)
            elif isinstance(v, (dict, list, set, int, float, str, tuple, np.ndarray)):
                things[name, k] = v
            elif callable(v) and getattr(v, '__module__', None) == name and kept(v):
                things[name, k] = kept(v)
            elif not callable(v) and hasattr(v, '__dict__') \
                    and type(v).__module__.startswith('pynare'):
                things[name, k] = v
    return content(things)
