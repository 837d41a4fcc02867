SEEDS=[{'id': 'p04-one-middle-block',
  'property': 'P04',
  'file': 'include/higra/structure/details/range_minimum_query.hpp',
  'old': '                if (lb + 1 == rb) return v;',
  'new': '                if (rb - lb <= 2) return v;',
  'needs': 'a block table query spanning exactly three blocks whose minimum lies in the middle block, while a smaller value lies in the first or last block '
           'outside of the query (so that the speculative answer is rejected)',
  'breaks': 'the middle block is not searched: the ancestor returned is not the lowest common one',
  'demo': '\n'
          'import higra as hg, numpy as np\n'
          'rng = np.random.default_rng(0)\n'
          'for it in range(60):\n'
          '    n = 60\n'
          '    # random binary-like tree\n'
          '    par = np.zeros(2 * n - 1, dtype=np.int64)\n'
          '    act = list(range(n))\n'
          '    for i in range(n, 2 * n - 1):\n'
          '        for _ in range(2):\n'
          '            par[act.pop(int(rng.integers(len(act))))] = i\n'
          '        act.append(i)\n'
          '    par[-1] = 2 * n - 2\n'
          '    anc = []\n'
          '    for i in range(len(par)):\n'
          '        a = [i]\n'
          '        while par[a[-1]] != a[-1]:\n'
          '            a.append(int(par[a[-1]]))\n'
          '        anc.append(a)\n'
          '    for bs in (2, 3, 5, 8):\n'
          '        t = hg.Tree(par)\n'
          '        t.lowest_common_ancestor_preprocess("sparse_table_block", bs)\n'
          '        a, b = rng.integers(0, len(par), (2, 300))\n'
          '        r = t.lowest_common_ancestor(a, b)\n'
          '        for x, y, z in zip(a, b, r):\n'
          '            s = set(anc[y])\n'
          '            assert z == next(k for k in anc[x] if k in s)\n'},
 {'id': 'p11-heap-stale-parent',
  'property': 'P11',
  'file': 'include/higra/structure/fibonacci_heap.hpp',
  'old': '                        do {\n'
         '                            child->m_parent = nullptr;\n'
         '                            child = child->m_next;\n'
         '                        } while (child != m_heap->m_child);\n'
         '                        m_merge(m_heap, m_heap->m_child);',
  'new': '                        for (; child->m_next != m_heap->m_child; child = child->m_next) {\n'
         '                            child->m_parent = nullptr;\n'
         '                        }\n'
         '                        m_merge(m_heap, m_heap->m_child);',
  'needs': 'a binary partition tree where the weight of an edge is changed after the heap node above it has been extracted and before the edge is linked again',
  'breaks': 'the last child of the extracted element keeps a pointer to the released element: a later weight change compares with, and cuts from, memory that '
            'is reused, and clusters are not merged in order of distance',
  'demo': '\n'
          'import higra as hg, numpy as np\n'
          'rng = np.random.default_rng(0)\n'
          'for it in range(60):\n'
          '    n = int(rng.integers(10, 40))\n'
          '    g = hg.UndirectedGraph(n)\n'
          '    e = [(i, int(rng.integers(i))) for i in range(1, n)] + [tuple(rng.choice(n, 2, replace=False)) for _ in range(4 * n)]\n'
          '    e = sorted({(int(min(a, b)), int(max(a, b))) for a, b in e})\n'
          '    for a, b in e: g.add_edge(a, b)\n'
          '    w = rng.random(len(e))\n'
          '    t, alt = hg.binary_partition_tree_average_linkage(g, w, np.ones(len(e)))\n'
          '    p = t.parents()\n'
          '    # naive\n'
          '    cl = {i: i for i in range(n)}\n'
          '    W = {}\n'
          '    for (a, b), x in zip(e, w):\n'
          '        W[a, b] = W[b, a] = (x, 1.0)\n'
          '    act = set(range(n)); k = n\n'
          '    while len(act) > 1:\n'
          '        m = min(((v[0], a, b) for (a, b), v in W.items() if a < b))\n'
          '        assert abs(alt[k] - m[0]) < 1e-9 and p[m[1]] == k and p[m[2]] == k, it\n'
          '        for c in list(act):\n'
          '            if c in m[1:]: continue\n'
          '            xs = [W[x, c] for x in m[1:] if (x, c) in W]\n'
          '            if xs:\n'
          '                s = sum(x[1] for x in xs)\n'
          '                W[k, c] = W[c, k] = (sum(x[0] * x[1] for x in xs) / s, s)\n'
          '        act -= set(m[1:])\n'
          '        W = {q: v for q, v in W.items() if q[0] not in m[1:] and q[1] not in m[1:]}\n'
          '        act.add(k); k += 1\n'},
 {'id': 'p30-strong-last-edge',
  'property': 'P30',
  'file': 'higra/hierarchy/constrained_connectivity_hierarchy.py',
  'old': '    np.maximum.at(max_edge_weights, lca_map, edge_weights)\n',
  'new': '    max_edge_weights[lca_map] = edge_weights\n',
  'needs': 'a region in which several edges have the same lowest common ancestor, the last one not being the heaviest',
  'breaks': 'the largest weight inside a region is the one of the last edge: regions containing too heavy edges are kept',
  'demo': '\n'
          'import higra as hg, numpy as np\n'
          'rng = np.random.default_rng(0)\n'
          'for it in range(300):\n'
          '    h, w = int(rng.integers(2, 4)), int(rng.integers(2, 4))\n'
          '    g = hg.get_4_adjacency_graph((h, w))\n'
          '    s, t = g.edge_list()\n'
          '    x = rng.integers(0, 6, len(s))\n'
          '    tree, alt = hg.constrained_connectivity_hierarchy_strong_connection(g, x)\n'
          '    n = g.num_vertices()\n'
          '    p = tree.parents()\n'
          '    below = [{i} if i < n else set() for i in range(len(p))]\n'
          '    for i in range(len(p) - 1): below[p[i]] |= below[i]\n'
          '    for i in range(n, len(p) - 1):\n'
          '        m = max(x[e] for e in range(len(s)) if s[e] in below[i] and t[e] in below[i])\n'
          '        assert m <= alt[i], (x, below[i], alt[i])\n'}]
