"""Lemmas over the contracts, proved in Lean (pv/lean): how the contracts of
single functions compose into a property.  A lemma that Lean does not accept
is undecided, never refuted."""
import os
import subprocess
import tempfile

from .. import frame, interp
from ..core import Unsupported, ctx
from .base import task

LEAN = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'lean')
AXIOMS = {'propext', 'Classical.choice', 'choice', 'Quot.sound'}


def lean(name, *theorems):
    """Let Lean check the file and say what the theorems rest on."""
    c = ctx()
    text = open(os.path.join(LEAN, name)).read()
    text += ''.join('\n#print axioms %s' % t for t in theorems)
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, name)
        with open(path, 'w') as f:
            f.write(text + '\n')
        try:
            r = subprocess.run(['lean', path], cwd=d, capture_output=True,
                               text=True, timeout=90)
        except (OSError, subprocess.TimeoutExpired) as e:
            raise Unsupported('lean: %r' % (e,))
    out = ' '.join((r.stdout + r.stderr).split())
    if r.returncode or 'sorry' in out or 'error' in out:
        raise Unsupported('lean: ' + out[:200])
    for t in theorems:
        head = "'%s' " % t
        if head not in out:
            raise Unsupported('lean says nothing of %s' % t)
        rest = out.split(head, 1)[1]
        if rest.startswith('depends on axioms: ['):
            used = rest.split('[', 1)[1].split(']', 1)[0]
            if not set(x.strip() for x in used.split(',')) <= AXIOMS:
                raise Unsupported('lean: %s rests on %s' % (t, used))
        elif not rest.startswith('does not depend on any axioms'):
            raise Unsupported('lean: ' + rest[:100])
        c.record('Lean %s: %s' % (name, t), 'proved')


def fact(ok, name):
    """A hypothesis of a lemma, evaluated on the definitions of the code."""
    if not ok:
        raise Unsupported('lemma not applicable: ' + name)
    ctx().record(name, 'proved')


def frame_of(mod):
    def f(I):
        c = ctx()
        for x in sorted(frame.inventory(os.path.join(
                interp.SRC, 'os_urlpattern')).get(mod, ())):
            c.record(x, 'proved' if x in frame.KNOWN.get(mod, ())
                     else 'unknown', 'keeps state')
        c.record('nothing else', 'proved')
    f.__name__ = 'frame_' + mod
    f.__doc__ = """Frame of %s.py: nothing keeps state from one call to the
    next but the attributes (of any object) that the contracts range over;
    read off the syntax tree by pv/frame.py; more state than that leaves the
    contracts undecided""" % mod
    return f


for _m in sorted(frame.KNOWN):
    task('', '')(frame_of(_m))


@task('C05', '')
def lemma_views(I):
    """A pattern made of the literal texts, lengths or wildcards of the parts
    of any view of any piece is looked up under a view whose cut of the piece
    is what the matcher groups the units of the pattern into (Lean;
    definitions: the contracts mixed_view, last_dot_cut, mixed_view_add and
    view_of_pattern)"""
    from os_urlpattern import definition as d
    mixed = set(d.MIXED_RULE_SET)
    fact(set(d.DIGIT_AND_ASCII_RULE_SET) <= mixed,
         'letters and digits are mixed rules')
    fact(d.BasePatternRule.DOT not in mixed, 'the dot is not a mixed rule')
    lean('Views.lean', 'Views.made_found', 'Views.made_given')


def compose(*names):
    lean('Compose.lean', *['Compose.' + n for n in names])


@task('C12 C02', '')
def lemma_loads(I):
    """Any sequence of loads of paths of one depth into one tree: the count
    of every node is the number of distinct loaded paths through it, nodes
    are the prefixes of loaded paths, a load is new exactly when the path was
    not loaded before (Lean; a load: the contracts build_tree, add_child and
    build_pieces)"""
    compose('loads_exact')


@task('C12 C02 C15', '')
def lemma_dump(I):
    """Dumping a tree whose nodes are the prefixes of the loaded paths, all
    of one depth, gives exactly these, none twice (Lean; the contracts
    dump_tree and tree_children, and lemma_loads)"""
    compose('dump_loaded')


@task('C02', '')
def lemma_partition(I):
    """What cluster yields for the makers of the digests, by any recursion of
    splits: every path in exactly one cluster, no other, the counts add up,
    one digest per cluster (Lean; a split: the contracts split, cluster_flow,
    maker_load, maker_make and sub_maker_make)"""
    compose('made_perm', 'made_once', 'made_count', 'made_digest')


@task('C01 C03 C05', '')
def lemma_cluster(I):
    """A pattern that a piece can get by the contracts of the cluster
    classes, through any depth of views, matches the piece and has exactly
    its rules (Lean)"""
    compose('Gets.match', 'Gets.rules')


@task('C17', '')
def lemma_threshold(I):
    """With fewer than min_cluster_num paths a piece keeps its literal, which
    matches no other text; what is not a literal was given to at least
    min_cluster_num paths (Lean)"""
    compose('Gets.literal', 'Gets.general', 'match_lit')


@task('C04 C05 C13', '')
def lemma_match(I):
    """What the view matchers give for a piece by their contracts, through
    any depth of views, matches the piece and has exactly its rules (Lean)"""
    compose('Given.sound')


@task('C04 C05', '')
def lemma_walk(I):
    """The results of a tree of patterns (node_match, by induction on the
    pieces): exactly the paths each of whose patterns is given for its piece
    by the view matchers at its node; none twice, as a node is kept once by
    one view matcher, and the leaves of a matcher by views refer to different
    nodes (Lean)"""
    compose('walk_iff', 'walk_nodup', 'by_views_nodup', 'views_nodup')


@task('C11', '')
def lemma_order(I):
    """The four obligations of a weak order give a weak order; ordering
    lists of one length by the last position that is not equally specific
    gives one; it has a greatest element (Lean)"""
    compose('Weak.of', 'Lex.weak', 'greatest')


@task('C03', '')
def lemma_digest(I):
    """The digest is equal exactly for equal structures and rule sets: pack
    has a left inverse (round_trip), rule texts are read in one way, md5 has
    no collisions by assumption (Lean)"""
    compose('digest_iff')
