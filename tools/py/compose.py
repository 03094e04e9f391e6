"""Builds one Verus file from /repo/src/lib.rs (through the mechanical extractor), the pinned
dependency sources and the contracts in /verif/spec."""
import json, os, re, subprocess, sys, glob

VERIF = os.environ.get('VERIF_DIR') or os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VERIF_REPO', '/repo')
EXTRACT = os.path.join(VERIF, 'tools/extract/target/release/extract')
sys.path.insert(0, os.path.join(VERIF, 'spec'))


def registry(crate):
    lock = open(os.path.join(REPO, 'Cargo.lock')).read() if os.path.exists(os.path.join(REPO, 'Cargo.lock')) else ''
    m = re.search(r'name = "%s"\nversion = "([^"]+)"' % crate, lock)
    pats = glob.glob(os.path.expanduser('~/.cargo/registry/src/*/%s-%s' % (crate, m.group(1) if m else '*')))
    if not pats:
        raise SystemExit('cannot find crate %s in the cargo registry' % crate)
    return sorted(pats)[-1]


def strip_comments(s):
    return re.sub(r'(?m)^\s*//.*$', '', s)


def enum_variants(text, name):
    body = re.search(r'pub enum %s \{(.*?)\n\}' % name, text, re.S).group(1)
    return [v for v in re.findall(r'(?m)^\s*([A-Z]\w*),', strip_comments(body))]


def true_arms(text, fn):
    body = re.search(r'pub fn %s\(&?self\) -> bool \{(.*?)\n    \}' % fn, text, re.S).group(1)
    return re.findall(r'Keyword::(\w+) => true', body)


def ast_text():
    root = registry('resast')
    out = []
    for f in ['lib', 'decl', 'expr', 'pat', 'stmt']:
        t = open(f'{root}/src/{f}.rs').read()
        t = strip_comments(t)
        for m in re.finditer(r'^((?:#\[[^\n]*\]\n)*)pub (enum|struct|type) (\w+)[^;{]*(?:;|\{(?:[^\n]*\}|.*?^\}))', t, re.S | re.M):
            attrs, kind, name = m.group(1), m.group(2), m.group(3)
            body = m.group(0)[len(attrs):]
            body = re.sub(r'\n\s*\n+', '\n', body)
            copy = 'Copy' in attrs
            if kind == 'type':
                out.append(body)
                continue
            if copy:
                out.append('#[derive(Clone, Copy, PartialEq)]\n' + body)
                out.append('impl PartialEqSpecImpl for %s { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }' % name)
            else:
                out.append(body)
                out.append('impl Clone for %s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }' % name)
    return '\n'.join(out)


def prelude():
    p = open(os.path.join(VERIF, 'spec/prelude.rs')).read()
    ress = registry('ress')
    kw = open(f'{ress}/src/keywords.rs').read()
    pu = open(f'{ress}/src/punct.rs').read()
    p = p.replace('@KEYWORDS@', ', '.join(enum_variants(kw, 'Keyword')))
    p = p.replace('@PUNCTS@', ', '.join(enum_variants(pu, 'Punct')))
    for f in ['is_future_reserved', 'is_strict_reserved', 'is_reserved']:
        p = p.replace('@%s@' % f.upper(), ' || '.join('self is %s' % a for a in true_arms(kw, f)) or 'false')
    p = p.replace('@AST@', ast_text())
    return p


LIST = """
#[verifier::opaque]
pub open spec fn L_@X@(h: int, c: Cx, a: int, s: Seq<@T@>, b: int) -> bool decreases s.len() {
    if s.len() == 0 { b == a }
    else { exists|m: int| #[trigger] tr(m) && L_@X@(h, c, a, s.drop_last(), m) && el_@X@(h, c, m, s.last(), b) }
}
pub broadcast proof fn list_@X@_0(h: int, c: Cx, a: int) ensures #[trigger] L_@X@(h, c, a, Seq::<@T@>::empty(), a) { reveal(L_@X@); }
pub broadcast proof fn list_@X@_p(h: int, c: Cx, a: int, s: Seq<@T@>, m: int, x: @T@, b: int)
    requires #[trigger] L_@X@(h, c, a, s, m), #[trigger] el_@X@(h, c, m, x, b)
    ensures L_@X@(h, c, a, s.push(x), b)
{ reveal(L_@X@); assert(s.push(x).drop_last() =~= s); assert(s.push(x).last() == x); assert(tr(m) && L_@X@(h, c, a, s.push(x).drop_last(), m)); }
"""


def expand_lists(t):
    """//@list MODULE NAME ELEMENT: the list relation over el_NAME with its two lemmas"""
    return re.sub(r'(?m)^//@list (\w+) (\w+) (.+)$', lambda m: LIST.replace('@X@', m.group(2)).replace('@T@', m.group(3)).strip() + '\n//@broadcast %s::list_%s_0, %s::list_%s_p' % (m.group(1), m.group(2), m.group(1), m.group(2)), t)


STD_USE = '''
use ress::{refs::{RefItem as Item, RefScanner as Scanner, RefToken as Token}, Keyword, Punct, Span};
use resast::prelude::*;
use std::mem::replace;
use vstd::std_specs::cmp::*;
'''


class Out:
    def __init__(self):
        self.lines = []
        self.meta = []   # per line: None or dict

    def add(self, text, meta=None):
        for l in text.split('\n'):
            self.lines.append(l)
            self.meta.append(meta)

    def text(self):
        return '\n'.join(self.lines) + '\n'


def extract(path=None):
    path = path or os.path.join(REPO, 'src/lib.rs')
    r = subprocess.run([EXTRACT, path], capture_output=True, text=True)
    if r.returncode != 0:
        raise SystemExit('extractor failed: ' + r.stderr[-2000:])
    return json.loads(r.stdout)


def fn_key(f):
    o = f['owner'] or ''
    if o.startswith('Parser<Default'):
        return 'new'
    if o.startswith('Parser'):
        return ('Iterator::' + f['name']) if f['trait'] == 'Iterator' else f['name']
    if o:
        return o + '::' + f['name']
    return f['name']


def outer(f, k, names):
    """of the variables a loop changes, those that live outside it"""
    m = re.search(r'/\*@TOP%d@\*/(.*)/\*@BOT%d@\*/' % (k, k), f['body'], re.S)
    body = m.group(1) if m else ''
    return [v for v in names if not re.search(r'\blet (?:mut )?(?:\([^=;]*)?\b%s\b' % re.escape(v), body)]


def fill(s, f, k=None):
    """placeholders in contract text that name things of the extracted function"""
    if k is not None and k < len(f['loops']):
        l = dict(f['loops'][k])
        l['push'] = outer(f, k, l['push'])
        l['assign'] = outer(f, k, l['assign'])
        acc = l['push'][0] if l['push'] else '__noacc'
        s = s.replace('$ACC', acc).replace('$IT', l.get('it', '__it%d' % k)).replace('$SRC', l.get('src', '')).replace('$RECV', l.get('recv', '')).replace('$K', str(k))
        s = re.sub(r'\$PUSH(\d)', lambda m: (l['push'] + ['__nopush'] * 9)[int(m.group(1))], s)
        s = re.sub(r'\$ASG(\d)', lambda m: (l['assign'] + ['__noasg'] * 9)[int(m.group(1))], s)
    ps = [p['name'] for p in f['params'] if p['name'] != 'self']
    s = re.sub(r'\$P(\d)', lambda m: (ps + ['__noparam'] * 9)[int(m.group(1))], s)
    return s


def compose(cfg, lib, contracts, degraded=(), consts=None, only=None, probe=False):
    """cfg: dict of toggle constants.  degraded: keys of functions emitted as external_body.
    only: set of keys to verify (the others are external_body but NOT counted as degraded)."""
    out = Out()
    out.add('#![allow(unused)]\n#![allow(warnings)]\nuse vstd::prelude::*;\nverus! {')
    out.add(prelude(), {'part': 'prelude'})
    out.add(STD_USE)
    out.add('pub mod cfgs {\nuse vstd::prelude::*;')
    for k, v in sorted(cfg.items()):
        if k[0] == '_':
            continue
        out.add('pub spec const %s: bool = %s;' % (k, 'true' if v else 'false'))
    out.add('}\npub use cfgs::*;')
    for it in lib['items']:
        if it['kind'] in ('struct', 'enum', 'type'):
            t = re.sub(r'\n\s*\n+', '\n', it['text'])
            if it['name'] in ('Position', 'Line'):
                out.add('#[derive(Clone, Copy)]')
            t = re.sub(r'^(\s*)(?:pub )?(struct|enum|type)\b', r'\1pub \2', t.strip())
            if it['kind'] == 'struct':
                t = re.sub(r'(?m)^(\s+)(?:pub(?:\([^)]*\))? )?((?:r#)?[a-z_]\w*: )', r'\1pub \2', t)
            out.add(t, {'part': 'item', 'name': it['name']})
    bc = []
    for rf in sorted(glob.glob(os.path.join(VERIF, 'spec/rules*.rs'))):
        t = expand_lists(open(rf).read())
        bc += [b for l in re.findall(r'(?m)^//@broadcast (.*)$', t) for b in l.split(', ') if b.split('::')[0] not in ('g2', 'g3', 'g4', 'pl') or b.split('::')[0] in cfg.get('_bc', ())]
        out.add(t, {'part': 'rules', 'file': os.path.basename(rf)})
    out.add('broadcast use {%s};' % ', '.join(bc))
    fns = [f for f in lib['fns'] if not f['cfg_test'] and not (f['trait'] or '').endswith('Display')]
    groups = {}
    order = []
    for f in fns:
        g = f['owner'] or ''
        if g not in groups:
            groups[g] = []
            order.append(g)
        groups[g].append(f)
    info = {}
    for g in order:
        if g:
            if g.startswith('Parser<CH'):
                out.add('impl<CH: CommentHandler + Sized> Parser<CH> {')
            else:
                out.add('impl %s {' % g)
        for f in groups[g]:
            key = fn_key(f)
            emit_fn(out, f, key, contracts, degraded, only, info)
        if g:
            out.add('}')
    if probe:
        out.add('impl<CH: CommentHandler + Sized> Parser<CH> { fn __probe(&mut self) requires old(self).wf() { assert(false); } }', {'fn': '__probe', 'k': 'body'})
    out.add('}\nfn main() {}')
    return out, info


def trim_rule(m):
    recv, var, cond = m.group(1), m.group(2), m.group(3)
    parts = re.split(r'\|\|', cond)
    cs = []
    for p in parts:
        q = re.match(r"\s*\*?%s == '(\\?.)'\s*$" % re.escape(var), p)
        if not q:
            return m.group(0)
        cs.append(q.group(1))
    cs = sorted(set(c[-1] for c in cs))
    return 'crate::trim_set(&%s, "%s")' % (recv, ''.join('\\' + c if c in '"\\' else c for c in cs))


LOOPKW = ('invariant', 'invariant_except_break', 'ensures')


def emit_fn(out, f, key, contracts, degraded, only, info):
    c = contracts.get(key, f)
    ret = f['ret']
    ptxt = []
    for p in f['params']:
        if p['name'] == 'self':
            ptxt.append(p['ty'])
        else:
            ty = p['ty']
            m = re.match(r'impl Into<String>$', ty)
            if m:
                ty = 'impl crate::IntoString'
            ptxt.append('%s: %s' % (p['name'], ty))
    ret_t = (ret or '').replace('Option<Self::Item>', 'Option<Res<ProgramPart>>')
    ext = c.get('external') or key in degraded or (only is not None and key not in only)
    info[key] = {'line': f['line'], 'end_line': f['end_line'], 'external': bool(ext), 'trusted': bool(c.get('external')),
                 'degraded': key in degraded, 'rules': f['rules'], 'loops': len(f['loops']), 'default': c.get('is_default', False)}
    M = lambda **k: dict(fn=key, **k)
    if ext:
        out.add('#[verifier::external_body]', M(k='attr'))
    else:
        out.add('#[verifier::loop_isolation(false)]', M(k='attr'))
        out.add('#[verifier::allow_complex_invariants]', M(k='attr'))
        if c.get('rlimit'):
            out.add('#[verifier::rlimit(%s)]' % c['rlimit'], M(k='attr'))
        if c.get('nodec') or (not c.get('dec')):
            out.add('#[verifier::exec_allows_no_decreases_clause]', M(k='attr'))
        if c.get('spinoff', True):
            out.add('#[verifier::spinoff_prover]', M(k='attr'))
    sig = 'fn %s%s(%s)' % (f['name'], f['generics'] or '', ', '.join(ptxt))
    if ret_t:
        sig += ' -> (r: %s)' % ret_t
    if f['where']:
        sig += ' ' + f['where'].strip().rstrip(',')
    out.add(sig, M(k='sig'))
    info[key]['gen_line'] = len(out.lines)
    if c.get('req'):
        out.add('  requires', M(k='req'))
        for tag, e in c['req']:
            out.add('    ' + fill(e, f).replace('\n', ' ') + ',', M(k='req', tag=tag))
    if c.get('ens'):
        out.add('  ensures', M(k='ens'))
        for tag, e in c['ens']:
            out.add('    ' + fill(e, f).replace('\n', ' ') + ',', M(k='ens', tag=tag))
    if c.get('dec') and not ext:
        out.add('  decreases ' + c['dec'] + ',', M(k='dec'))
    if ext:
        out.add('{ unimplemented!() }', M(k='body'))
        info[key]['gen_end'] = len(out.lines)
        return
    body = re.sub(r'(\w+)( \{[^{}]*\.\.)Default::default\(\)', r'\1\2\1::default()', f['body'])
    body = re.sub(r"\b(\w+)\.trim_matches\(\|(\w+)\|((?:[^()'\"]|'\\?.')*)\)", trim_rule, body)
    body = body.replace('.to_string()', '.ts()')
    if not any('IntoString' in t for t in ptxt):
        body = re.sub(r'\b(\w+)\.into\(\)', r'crate::conv(\1)', body)
    for l in f['loops']:
        k = l['k']
        lc = c['loop'](k, l, f)
        tags = []
        inv = ''
        items = lc.get('inv', [])
        dec = lc.get('dec')
        if items or dec or lc.get('invx') or lc.get('ens'):
            inv = '\n'
            for kw, its in (('invariant_except_break', lc.get('invx')), ('invariant', items), ('ensures', lc.get('ens'))):
                if its:
                    inv += kw + '\n' + ''.join('  %s, //@%s\n' % (fill(e, f, k).replace('\n', ' '), tag) for tag, e in its)
            if dec and l['kind'] in ('while', 'loop'):
                inv += 'decreases %s\n' % fill(dec, f, k)
        body = body.replace('/*@PRE%d@*/' % k, fill(lc.get('pre', ''), f, k).replace('\n', ' '))
        body = body.replace('/*@INV%d@*/' % k, inv)
        body = body.replace('/*@TOP%d@*/' % k, fill(lc.get('top', ''), f, k).replace('\n', ' '))
        body = body.replace('/*@BOT%d@*/' % k, fill(lc.get('bot', ''), f, k).replace('\n', ' '))
        body = body.replace('/*@POST%d@*/' % k, fill(lc.get('post', ''), f, k).replace('\n', ' '))
    for nm, txt in (c.get('nested') or {}).items():
        body = body.replace('/*@NSIG:%s@*/' % nm, txt)
    pre = c.get('pre') or ''
    if pre:
        out.add('{ ' + fill(pre, f).replace('\n', ' '), M(k='hint'))
    # map body lines to source lines: the extractor keeps line counts, inserted invariants add lines
    src = f['body_line']
    blines = body.split('\n')
    ininv = False
    for bl in blines:
        s = bl.strip()
        if ininv or s in LOOPKW or (s.startswith('decreases ') and not s.startswith('decreases_')):
            mm = re.search(r'//@(\S+)\s*$', bl)
            if s in LOOPKW:
                ininv = True
            if s.startswith('decreases '):
                out.add(bl, M(k='loopdec', src=src))
                continue
            if s in LOOPKW or mm:
                out.add(re.sub(r'//@\S+\s*$', '', bl), M(k='inv', tag=mm.group(1) if mm else None, src=src))
                continue
            ininv = False
        out.add(bl, M(k='body', src=src))
        src += 1
    if pre:
        out.add('}', M(k='body', src=src))
    info[key]['gen_end'] = len(out.lines)
