"""P27: the engine is sans-io"""
import ast
import os

from sa import refs
from sa.interp import AnalysisError

SPEC = {
    'id': 'P27', 'level': 'proof',
    'technique': 'effect analysis: every name, attribute chain and import of the engine modules is '
                 'resolved through scopes and re-exports to the outside name it denotes, which '
                 'must be on the list of names without effects',
    'explanation': 'exhaustive over the references of every module but the four that exist to do '
                   'input and output; unknown outside names are violations, dynamic imports and '
                   'evaluation too, so no effect can be reached by another name',
    'assumptions': ['the objects handed in by the user (trust store, OCSP service, keys, logging '
                    'handlers) do what they please', 'the modules listed as pure perform no input '
                    'or output beyond logging and the system random generator'],
}
EXEMPT = ('siotls.wrapper', 'siotls.ocsp_over_http', 'siotls.trust_store', 'siotls.__main__',
          'siotls.examples')
PURE = {
    'abc', 'array', 'ast', 'base64', 'binascii', 'bisect', 'calendar', 'collections', 'contextlib',
    'copy', 'cryptography', 'dataclasses', 'datetime', 'decimal', 'difflib', 'email', 'enum',
    'fractions', 'functools', 'hashlib', 'heapq', 'hmac', 'html', 'idna', 'ipaddress', 'itertools',
    'json', 'keyword', 'math', 'numbers', 'operator', 'pprint', 'random', 're', 'reprlib',
    'secrets', 'statistics', 'string', 'stringprep', 'struct', 'textwrap', 'time', 'traceback',
    'types', 'typing', 'typing_extensions', 'unicodedata', 'uuid', 'warnings', 'weakref', 'zlib',
    '__future__', 'encodings', 'codecs',
}
NAMES = {
    'io.BytesIO', 'io.StringIO', 'io.BufferedReader', 'io.SEEK_SET', 'io.SEEK_CUR', 'io.SEEK_END',
    'io.DEFAULT_BUFFER_SIZE', 'io.UnsupportedOperation', 'os.urandom', 'os.path.basename',
    'os.linesep', 'http.HTTPStatus', 'http.HTTPMethod', 'urllib.parse', 'wsgiref.handlers.format_date_time',
    'sys.version_info', 'sys.byteorder', 'sys.maxsize', 'sys.intern', 'sys.exc_info', 'sys.exception',
    'sys.getsizeof', 'sys.hexversion', 'sys.implementation', 'importlib.metadata', 'pathlib.PurePath',
    'pathlib.PurePosixPath', 'asyncio.IncompleteReadError',
    'concurrent.futures.CancelledError', 'socket.timeout', 'ssl.match_hostname',
}
UNDER = ('urllib.parse.', 'http.HTTPStatus.', 'http.HTTPMethod.', 'io.BytesIO.', 'collections.abc.',
         'sys.version_info.', 'sys.implementation.', 'importlib.metadata.', 'pathlib.PurePath.')
DENIED = {
    'builtins.open', 'builtins.print', 'builtins.input', 'builtins.exec', 'builtins.eval',
    'builtins.compile', 'builtins.__import__', 'builtins.breakpoint', 'builtins.help',
    'builtins.exit', 'builtins.quit', 'builtins.__loader__', 'builtins.__spec__', 'time.sleep',
    'builtins.globals', 'builtins.vars', 'builtins.locals', 'builtins.__build_class__',
    'time.clock_settime', 'time.tzset', 'traceback.print_exc', 'traceback.print_stack',
    'traceback.print_exception', 'traceback.print_last', 'traceback.print_tb', 'pprint.pprint',
    'pprint.pp', 'codecs.open', 'codecs.EncodedFile', 'uuid.getnode', 'uuid.uuid1',
    'hashlib.file_digest', 'types.FunctionType', 'types.CodeType',
    'typing.get_type_hints', 'email.message_from_file', 'json.load', 'json.dump',
}
LOGGING = {'getLogger', 'Logger', 'LoggerAdapter', 'Filter', 'NullHandler', 'LogRecord', 'debug',
           'info', 'warning', 'error', 'critical', 'exception', 'log', 'DEBUG', 'INFO', 'WARNING',
           'ERROR', 'CRITICAL', 'NOTSET', 'FATAL', 'getLevelName', 'addLevelName',
           'getLoggerClass', 'Formatter', 'Handler'}
METHODS = {'recv', 'recv_into', 'recvfrom', 'recvmsg', 'sendall', 'sendto', 'sendmsg', 'sendfile',
           'makefile', 'read_text', 'read_bytes', 'write_text', 'write_bytes', 'unlink', 'mkdir',
           'urlopen', 'putenv', 'getenv', 'environ', '__builtins__', '__globals__',
           '__subclasses__', 'create_connection', 'setsockopt'}


def exempt(name):
    return any(name == e or name.startswith(e + '.') for e in EXEMPT)


def allowed(name, fn):
    """why not, or None"""
    if name in DENIED:
        return 'has effects'
    root = name.split('.')[0]
    if root == 'builtins':
        return None
    if root == 'logging':
        last = name.split('.')[1:2]
        return None if not last or last[0] in LOGGING else 'does more than logging'
    if name.startswith('importlib.metadata') and fn is not None:
        return 'reads files'
    if root in PURE or name in NAMES or name.startswith(UNDER):
        return None
    return 'is not known to be free of effects'


def run(ctx):
    mods = refs.load(os.path.join(ctx.repo, 'src'))
    if len(mods) < 40 or 'siotls.connection' not in mods:
        raise AnalysisError('the modules of the library are not found')
    handed = set()       # functions that hand over to an exempt module
    own = {n.name for m in mods.values() for n in ast.walk(m.tree)
           if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))}
    for m in mods.values():
        if exempt(m.name):
            ctx.count('exempt-modules')
            continue
        ctx.count('modules')
        skip = command_line(m)
        for r in m.refs:
            if id(r.node) in skip:
                continue
            w = f'{r.fn or r.module.name}: {r.name}'
            if r.name.split('.')[0] == 'siotls':
                if exempt(r.name):
                    ctx.count('hand-over')
                    ctx.check(r.fn is not None, 'no-effect-at-import', w,
                              'is used while the module is imported', r.loc)
                    if r.fn:
                        handed.add(r.fn)
                continue
            why = allowed(r.name, r.fn)
            ctx.check(why is None, 'no-effect', w, f'{r.name} {why}', r.loc)
        for name, node, fn in m.methods:
            if id(node) in skip or name not in METHODS:
                continue
            ctx.check(name in own, 'no-effect', f'{fn or m.name}: .{name}',
                      f'.{name} is an input/output method', (m.path, node.lineno))
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.AsyncFunctionDef, ast.Await, ast.AsyncWith, ast.AsyncFor)):
                ctx.bad('no-effect', m.name, 'asynchronous code', (m.path, n.lineno))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id == 'getattr' and n.args and id(n) not in skip:
                getattr_(ctx, m, n)
    names = {f.rpartition('.')[2] for f in handed}
    for m in mods.values():
        if exempt(m.name):
            continue
        for name, node, fn in m.methods:
            if name in names and fn not in handed:
                ctx.bad('no-hand-over-inside', f'{fn or m.name}: .{name}',
                        f'the engine itself calls {name}(), which does input and output',
                        (m.path, node.lineno))
        for r in m.refs:
            if r.name in handed and r.kind == 'name':
                ctx.bad('no-hand-over-inside', f'{r.fn}: {r.name}',
                        'the engine itself does input and output', r.loc)
    ctx.need('no-effect', 400)


def getattr_(ctx, m, n):
    """getattr() on a module could reach anything"""
    names = m.names
    a = n.args[0]
    if isinstance(a, ast.Name) and names.get(a.id) and names[a.id].split('.')[0] != 'siotls' and \
            names[a.id] in ('os', 'io', 'sys', 'builtins', 'importlib', 'logging', 'time', 'socket'):
        ctx.bad('no-effect', f'{m.name}: getattr', f'getattr on the module {names[a.id]}',
                (m.path, n.lineno))


def command_line(m):
    """what only runs when the file is executed as a program"""
    out = set()
    for n in m.tree.body:
        if isinstance(n, ast.If) and any(isinstance(x, ast.Name) and x.id == '__name__'
                                         for x in ast.walk(n.test)) and any(
                isinstance(x, ast.Constant) and x.value == '__main__' for x in ast.walk(n.test)):
            for s in n.body:
                out |= {id(x) for x in ast.walk(s)}
    return out
