#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
P = []
def prop(id, title, statement, text, why, files, mech, observe='', state=(), claim=None, na=None, over=('inputs',), note='', level='proof', tech=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, observe=observe, state=state,
                  claim=claim, na=na, over=over, note=note, level=level, tech=tech))

prop('P01', 'Linear combinations of sparse matrices are exact, for every shape and pattern',
     'Adding, scaling and summing sparse matrices (with coefficients, in place, or through expression syntax) gives, entry by entry, the same matrix that dense arithmetic gives, including when the operands differ in size, overlap partially, cancel, or have empty rows. The result is always a valid sparse matrix: monotone row boundaries, columns in range, no column twice in a row. The operands are not changed.',
     'every pair (or list) of well-formed sparse matrices, every sparsity pattern, column order and coefficient, every previous content of the target',
     'The existing tests build a handful of fixed or random matrices and mostly print them; the cancelling, empty-row and differing-size paths depend on the sparsity pattern, and there are infinitely many patterns.',
     ['src/CrsMatrix.h'], [('row-by-row accumulation with an examined-column marker', 'operatorPlus'), ('list version', 'sum'), ('in-place and expression forms', 'CrsMatrix::operator+=, operator*=, add')],
     observe='entries, shape and row pointers of the result matrix', claim=True)
prop('P02', 'Sparse matrix products agree with the definition of the product',
     'Sparse times vector (overwriting and accumulating forms), sparse times sparse, and sparse times conjugate-transposed sparse give exactly the sums the definition of the product prescribes, in every component. Products of sparse matrices are again valid sparse matrices whatever the patterns and whatever the target held before.',
     'every conforming pair of well-formed sparse matrices, every vector, real and complex',
     'Products are exercised by tests only on a few inputs; the scatter/gather bookkeeping must be right for every pattern of fill-in.',
     ['src/CrsMatrix.h'], [('scatter pointers per row, reset after each row', 'multiply(CrsMatrix&, ...)'), ('vector products', 'CrsMatrix::matrixVectorProduct, multiply(v2, m, v1)'), ('product with the conjugate transpose', 'multiplyTc')],
     observe='every component of the result', claim=True)
prop('P03', 'Sparse matrix conversions, transposes and embeddings preserve every entry',
     'Dense to sparse and back, building from (row, column, value) triplets, conjugate transposition, embedding a block, tensoring with another matrix or with the identity, swapping and copying yield exactly the entries that the definition gives, never stale ones. The structural predicates (diagonal, identity, Hermitian, zero) answer yes exactly when the denoted matrix has the property.',
     'every well-formed sparse matrix, every list of triplets in any order, every permutation and sign vector, any previous content of the target',
     'No test compares a conversion with its inverse over all patterns; tests never reuse a target object, and pass empty rows only by accident.',
     ['src/CrsMatrix.h', 'src/Matrix.h', 'src/Sort.h'], [('two-pass counting transposition', 'transposeConjugate'), ('dense conversion', 'crsMatrixToFullMatrix, fullMatrixToCrsMatrix, CrsMatrix(Matrix)'), ('tensor products', 'externalProduct (two overloads)'), ('embedding', 'fromBlockToFull'), ('predicates', 'isDiagonal, isTheIdentity, isZero')],
     observe='entries and shape of the converted object, result of the predicates', claim=True)
exec(open(os.path.join(HERE, 'tools', 'props_more.py')).read())

TECH = 'contract-based deductive verification: contracts on the real C++ (clang AST exported on every run), VCs discharged by z3/cvc5'
NOTE = 'Obligations (pre/postconditions, loop invariants, bounds, termination) of the listed functions discharged for all inputs over exact arithmetic; trusted: clang AST export, the VC generator and its library models, the solvers; evidence lists what is bounded only.'
BY = {p['id']: p for p in P}
def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': list(p['over']), 'text': p['text']},
                 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
            if p['state']:
                d['anchors']['state'] = [{'name': n, 'meaning': m} for n, m in p['state']]
            if p['observe']:
                d['anchors']['observe_at'] = [p['observe']]
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(d) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3-vt check.py --setup',
         'hooks': {'guard': 'PSIMAG_VERIF_UNUSED', 'enable': 'no hooks were needed: the checks read and compile the unmodified sources', 'source_commits': []},
         'checks': [], 'not_applicable': []}
    for p in P:
        if p['claim']:
            m['checks'].append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s' % p['id'], 'thorough_cmd': 'python3-vt check.py %s' % p['id'],
                                'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['tech'] or TECH, 'level': p['level'], 'level_note': p['note'] or NOTE})
        else:
            m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    m['notes'] = 'DESIGN.md explains the method, the per-property contracts, the defects found and the planted bugs.'
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
main()
