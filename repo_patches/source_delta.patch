From 939ff12bd5caafd0f1069c3b7431776ed3adce2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:02 +0000
Subject: [PATCH 01/10] fix: pair the transverse shear stiffnesses with their
 directions

E[1, 1] and scf_k13 belong to the xz shear (E44 in the code), E[0, 0] and
scf_k23 to the yz shear (E55); they were swapped, and interior_edge paired
the correction factors differently from boundary_edge.
---
 meshless/espim/plate2d_add_k0s_cell_based.py              | 4 ++--
 meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py | 4 ++--
 meshless/espim/plate2d_add_k0s_edge_based.py              | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/meshless/espim/plate2d_add_k0s_cell_based.py b/meshless/espim/plate2d_add_k0s_cell_based.py
index a325762..ac3cef4 100644
--- a/meshless/espim/plate2d_add_k0s_cell_based.py
+++ b/meshless/espim/plate2d_add_k0s_cell_based.py
@@ -73,9 +73,9 @@ def add_k0s(k0, mesh, prop_from_node, alpha, maxl_from_area, silent=True):
             k23 = tria.prop.scf_k23
             E = tria.prop.E
             h = tria.prop.h
-        E44 = k23 * E[0, 0]
+        E44 = k13 * E[1, 1]
         E45 = 0 # min(k13, k23) * E[0, 1]
-        E55 = k13 * E[1, 1]
+        E55 = k23 * E[0, 0]
 
         if maxl_from_area:
             maxl = Ac**0.5
diff --git a/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py b/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py
index 8b13e2e..0b18347 100644
--- a/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py
+++ b/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py
@@ -41,9 +41,9 @@ def add_k0s(k0, mesh, prop_from_node, alpha, maxl_from_area, silent=True):
             E = tria.prop.E
             h = tria.prop.h
 
-        E44 = k23 * E[0, 0]
+        E44 = k13 * E[1, 1]
         E45 = 0 # min(k13, k23) * E[0, 1]
-        E55 = k13 * E[1, 1]
+        E55 = k23 * E[0, 0]
 
         if maxl_from_area:
             maxl = Ac**0.5
diff --git a/meshless/espim/plate2d_add_k0s_edge_based.py b/meshless/espim/plate2d_add_k0s_edge_based.py
index 778daa8..54a1f3e 100644
--- a/meshless/espim/plate2d_add_k0s_edge_based.py
+++ b/meshless/espim/plate2d_add_k0s_edge_based.py
@@ -42,9 +42,9 @@ def boundary_edge(k0, edge, n1, n2, prop_from_node, alpha, maxl_from_area):
         E = tria1.prop.E
         h = tria1.prop.h
 
-    E44 = k23 * E[0, 0]
+    E44 = k13 * E[1, 1]
     E45 = 0 # min(k13, k23) * E[0, 1]
-    E55 = k13 * E[1, 1]
+    E55 = k23 * E[0, 0]
 
     if maxl_from_area:
         maxl = Ac**0.5
@@ -193,9 +193,9 @@ def interior_edge(k0, edge, n1, n2, prop_from_node, alpha, maxl_from_area):
         E = (Ac1*prop1.E + Ac2*prop2.E)/Ac
         h = (Ac1*prop1.h + Ac2*prop2.h)/Ac
 
-    E44 = k13 * E[0, 0]
+    E44 = k13 * E[1, 1]
     E45 = min(k13, k23) * E[0, 1]
-    E55 = k23 * E[1, 1]
+    E55 = k23 * E[0, 0]
 
     if maxl_from_area:
         maxl = Ac**0.5
-- 
2.43.0


From e4343bf21c77f5925f112d14270e7335956ee4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:24 +0000
Subject: [PATCH 02/10] fix: read_mesh keeps node positions in the basic
 coordinate system

Grids given in another coordinate system (cp != 0) kept their local
coordinates in node.xyz, while centroids and areas were computed from the
positions in the basic system.
---
 meshless/espim/read_mesh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/meshless/espim/read_mesh.py b/meshless/espim/read_mesh.py
index 7a25e04..cb0e59d 100644
--- a/meshless/espim/read_mesh.py
+++ b/meshless/espim/read_mesh.py
@@ -29,6 +29,7 @@ def read_mesh(filepath, silent=True):
         node.edges = set()
         node.index = set()
         node.prop = None
+        node.set_position(mesh, node.get_position())
 
     trias = []
     for elem in mesh.elements.values():
-- 
2.43.0


From e196eba62ac47261eb5f5d99728fac461577d494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:32 +0000
Subject: [PATCH 03/10] fix: pow2mul keeps the value of calls, nested powers
 and other exponents

sin(x)**2 became sin(x*x), (a**2 + b)**3 failed, x**2.5 became (x*x).5,
2.5**2 became 2.(5*5), x**0 became () and pow(x, n) raised ValueError
---
 meshless/dev/sympytools.py | 61 +++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 21 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index a94f224..805be60 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -21,28 +21,47 @@ def pow2mul(instr):
         The output string
 
     """
-    old_new = []
     outstr = instr
-    search = r'\w+\*\*\s*\d+|\([^\(\)]+\)\*\*\d+'
-    for p in re.findall(search, instr):
-        var, exp = p.replace(' ', '').split('**')
-        new = '(' + '*'.join([var]*int(exp)) + ')'
-        old_new.append([p, new])
-    # putting longer patterns first to avoid wrong
-    # substitutions
-    old_new = sorted(old_new, key=lambda x: len(x[0]))[::-1]
-    for old, new in old_new:
-        outstr = outstr.replace(old, new)
-
-    old_new = []
-    for p in re.findall(r'pow\(\s*[^,]+\s*,\s*[^,\)]+\s*\)', instr):
-        var, exp = p.split('pow')[1].split(',')
-        var = var.strip()[1:] # removing left parentheses
-        exp = exp.strip()[:-1] # removing right parentheses
-        new = '(' + '*'.join(['(' + var.replace(' ', '') + ')']*int(exp)) + ')'
-        old_new.append([p, new])
-    for old, new in old_new:
-        outstr = outstr.replace(old, new)
+    # the last pow() first, such that a pow() inside another one is done
+    # before the outer one
+    for m in reversed(list(re.finditer(r'(?<![\w.])pow\s*\(', instr))):
+        args = ['']
+        level = 0
+        for end in range(m.end() - 1, len(outstr)):
+            char = outstr[end]
+            level += (char in '([') - (char in ')]')
+            if level == 0:
+                break
+            if char == ',' and level == 1:
+                args.append('')
+            elif end >= m.end():
+                args[-1] += char
+        if len(args) == 2 and re.match(r'\s*\d+\s*$', args[1]):
+            var = '(' + args[0].replace(' ', '') + ')'
+            new = '(' + ('*'.join([var]*int(args[1])) or '1') + ')'
+            outstr = outstr[:m.start()] + new + outstr[end+1:]
+
+    # non-negative integers only, being not the base of a further power
+    search = re.compile(r'\s*\*\*\s*(\d+)(?![\w.]|\s*\*\*)')
+    p = search.search(outstr)
+    while p:
+        # going backwards over the calls, indices and parentheses of the base
+        start = p.start()
+        while outstr[start-1] in ')]':
+            level = 0
+            while True:
+                start -= 1
+                level += (outstr[start] in ')]') - (outstr[start] in '([')
+                if level == 0:
+                    break
+        # name or number
+        name = re.search(r'(?<![\w.])(\d+\.?\d*|\.\d+)[eE][+-]?\d+$|[\w.]*$',
+                outstr[:start])
+        start = name.start()
+        var = outstr[start:p.start()].replace(' ', '')
+        new = '(' + ('*'.join([var]*int(p.group(1))) or '1') + ')'
+        outstr = outstr[:start] + new + outstr[p.end():]
+        p = search.search(outstr, start + len(new))
 
     return outstr
 
-- 
2.43.0


From d6dfde0684b79ca0fbd1fecdf35eca52fcb36f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:32 +0000
Subject: [PATCH 04/10] fix: mprint_as_array expands powers with pow2mul

a1**2 was also replaced inside la1**2, x**2 inside x**21, and x**2.5 became (x*x).5
---
 meshless/dev/sympytools.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index 805be60..af0386e 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -319,10 +319,7 @@ def mprint_as_array(m, mname, sufix=None, use_cse=False, header=None,
                     ls.append('    {expr}'.format(expr=k*expr))
             else:
                 if pow_by_mul:
-                    v = str(v)
-                    for p in re.findall(r'\w+\*\*\d+', v):
-                        var, exp = p.split('**')
-                        v = v.replace(p, '(' + '*'.join([var]*int(exp)) + ')')
+                    v = pow2mul(str(v))
                 ls.append('{0}[pos+{1}] {2} {3}'.format(mname, i, op, v))
     string = '\n'.join(ls)
     if print_file:
-- 
2.43.0


From 9bd36399e0ddaa78aeeb5cf2046a3181a27bcd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:32 +0000
Subject: [PATCH 05/10] fix: mprint_as_array leaves the matrix given by the
 caller as it was

With use_cse the reduced expressions were stored in it
---
 meshless/dev/sympytools.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index af0386e..8f0e050 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -282,9 +282,7 @@ def mprint_as_array(m, mname, sufix=None, use_cse=False, header=None,
     """
     ls = []
     if use_cse:
-        subs, m_list = sympy.cse(m)
-        for i, v in enumerate(m_list):
-            m[i] = v
+        subs, (m,) = sympy.cse(m)
     if sufix is None:
         namesufix = '{0}'.format(mname)
     else:
-- 
2.43.0


From 90ce73e42f848ec1bd5a1cc7475a363769a59ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:32 +0000
Subject: [PATCH 06/10] fix: mprint_as_sparse prints the upper triangle of the
 whole matrix

With is_symmetric and dofpernode the row and column within the nodal
blocks were compared, dropping terms of the blocks above the diagonal
and printing terms of the blocks below it
---
 meshless/dev/sympytools.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index 8f0e050..bf555c0 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -110,15 +110,14 @@ def mprint_as_sparse(m, mname, sufix=None, subs=None, header=None,
 
     num = 0
     for (i, j), v in np.ndenumerate(m):
+        if is_symmetric and i > j:
+            continue
         if dofpernode:
             nindi = (i // dofpernode) + 1
             nindj = (j // dofpernode) + 1
             i = i % dofpernode
             j = j % dofpernode
         if v:
-            if is_symmetric and i > j:
-                continue
-
             if subs:
                 v = v.subs(subs)
             num += 1
-- 
2.43.0


From bc43af8d4ec1b76030a268261c7183fa9256fa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:32 +0000
Subject: [PATCH 07/10] fix: mprint_as_sparse prints the substitutions as
 comments

As mprint_as_dense does: the line 'subs' is no valid code and the
assignments undid the substitutions
---
 meshless/dev/sympytools.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index bf555c0..91be599 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -150,11 +150,9 @@ def mprint_as_sparse(m, mname, sufix=None, subs=None, header=None,
         items = [(k, v) for k, v in items if str(v) in string]
         if items:
             ls_header = []
-            ls_header.append('subs\n')
+            ls_header.append('# subs')
             for k, v in items:
-                ls_header.append('{0} = {1}'.format(v, k))
-            ls_header.append('\n')
-
+                ls_header.append('# {0} = {1}'.format(v, k))
             string = '\n'.join(ls_header + ls)
 
     if print_file:
-- 
2.43.0


From d5c6e45e9070dee5da1aea48ec225f1521490ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:07 +0000
Subject: [PATCH 08/10] fix: pow2mul stops at the beginning of the text when
 looking for the base of a power

---
 meshless/dev/sympytools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index 91be599..f21a90d 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -47,7 +47,7 @@ def pow2mul(instr):
     while p:
         # going backwards over the calls, indices and parentheses of the base
         start = p.start()
-        while outstr[start-1] in ')]':
+        while start > 0 and outstr[start-1] in ')]':
             level = 0
             while True:
                 start -= 1
-- 
2.43.0


From ae249e4bf043ea92dce091a7a1224a42a8ed5ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:16 +0000
Subject: [PATCH 09/10] fix: mprint_as_array prints the requested operator for
 collected terms too

---
 meshless/dev/sympytools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index f21a90d..30b7fd9 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -308,7 +308,7 @@ def mprint_as_array(m, mname, sufix=None, use_cse=False, header=None,
         if v:
             if collect_for is not None:
                 v = collect(v, collect_for, evaluate=False)
-                ls.append('{0}[pos+{1}] +='.format(mname, i))
+                ls.append('{0}[pos+{1}] {2}'.format(mname, i, op))
                 for k, expr in v.items():
                     ls.append('#   collected for {k}'.format(k=k))
                     ls.append('    {expr}'.format(expr=k*expr))
-- 
2.43.0


From 0ee0f8fa6fdc5bf608a317bb1db25299a106731b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:37 +0000
Subject: [PATCH 10/10] fix: dense and sparse printing keep the lines complete
 when a substitution makes a collected term vanish

---
 meshless/dev/sympytools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index 30b7fd9..0bcb724 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -131,7 +131,8 @@ def mprint_as_sparse(m, mname, sufix=None, subs=None, header=None,
                 ls.append('{mname}c[c] = col+{j}'.format(mname=mname, j=j))
 
             if collect_for is not None:
-                v = collect(v, collect_for, evaluate=False)
+                # a term that vanishes after the substitutions has nothing to collect
+                v = collect(v, collect_for, evaluate=False) or {1: v}
                 ls.append('{mname}v[c] +='.format(mname=mname))
                 for k, expr in v.items():
                     ls.append('#   collected for {k}'.format(k=k))
@@ -208,7 +209,8 @@ def mprint_as_dense(m, mname, subs=None, header=None, print_file=True,
             if subs:
                 v = v.subs(subs)
             if collect_for is not None:
-                v = collect(v, collect_for, evaluate=False)
+                # a term that vanishes after the substitutions has nothing to collect
+                v = collect(v, collect_for, evaluate=False) or {1: v}
                 if dofpernode:
                     ls.append('{mname}[i{nindi}*dof+{i}, i{nindj}*dof+{j}] +='.format(
                         mname=mname, i=i, j=j, nindi=nindi, nindj=nindj))
-- 
2.43.0

