From 7363bb48b3210347898282d13fc1dd3179c6056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:42 +0000
Subject: [PATCH 01/31] hook: CODD_VERIF lets verification builds choose the
 initial table and queue sizes

---
 src/dd.hpp     | 11 +++++++++--
 src/search.cpp |  9 ++++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/dd.hpp b/src/dd.hpp
index 40191f2..34cc088 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -15,6 +15,13 @@
 #include "msort.hpp"
 #include "pool.hpp"
 
+#ifdef CODD_VERIF // verification builds pick the initial size of the state tables at run time
+extern std::size_t coddVerifTableSize;
+#define CODD_TABLE_SIZE coddVerifTableSize
+#else
+#define CODD_TABLE_SIZE 200000
+#endif
+
 class Strategy;
 class AbstractDD;
 
@@ -348,7 +355,7 @@ template <typename ST> requires Printable<ST> && Hashable<ST>
 class DDNodeAllocator :public AbstractNodeAllocator {
    LHashtable<ST> _nmap;
 public:
-   DDNodeAllocator(LPool::Ptr pool) : AbstractNodeAllocator(pool),_nmap(pool->get(),200000) {}
+   DDNodeAllocator(LPool::Ptr pool) : AbstractNodeAllocator(pool),_nmap(pool->get(),CODD_TABLE_SIZE) {}
    ANode::Ptr cloneNode(ANode::Ptr src) override {
       auto sp = static_cast<const Node<ST>*>(src.get());
       Node<ST>* at = nullptr;
@@ -557,7 +564,7 @@ public:
         _eqs(eqs),
         _local(local),
         _sdom(dom),
-        _nmap(_mem,200000),
+        _nmap(_mem,CODD_TABLE_SIZE),
         _ndId(0)
    {
       _baseline = _mem->mark();
diff --git a/src/search.cpp b/src/search.cpp
index a06a2aa..e073399 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -8,6 +8,13 @@
 #include "RuntimeMonitor.hpp"
 #include "pool.hpp"
 
+#ifdef CODD_VERIF // verification builds pick the initial size of the search queue at run time
+extern int coddVerifQueueSize;
+#define CODD_QUEUE_SIZE coddVerifQueueSize
+#else
+#define CODD_QUEUE_SIZE 64000
+#endif
+
 struct QNode {
    ANode::Ptr node;
    double    bound;
@@ -42,7 +49,7 @@ void BAndB::search(Bounds& bnds)
    auto hOrder = [relaxed](const QNode& a,const QNode& b) {
       return relaxed->isBetter(a.bound,b.bound);
    };
-   Heap<QNode,decltype(hOrder)> pq(bbPool->get(),64000,hOrder);
+   Heap<QNode,decltype(hOrder)> pq(bbPool->get(),CODD_QUEUE_SIZE,hOrder);
    ANode::Ptr rootNode = bbPool->cloneNode(relaxed->init());
    if (relaxed->hasLocal()) {
       auto dualRootValue = relaxed->local(rootNode,LocalContext::BBCtx);
-- 
2.43.0


From a2349d2f76688c1cb8c53f910241ac8ea832ab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:28 +0000
Subject: [PATCH 02/31] fix: process a subproblem again when its cutset is the
 root and the width was increased

cloneNode refused the root's state because it was already in the B&B table, so the
subproblem was dropped and the search stopped with a suboptimal incumbent.
---
 src/search.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/search.cpp b/src/search.cpp
index e073399..cb740f6 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -167,7 +167,8 @@ void BAndB::search(Bounds& bnds)
                }
                assert(n->isExact());
                if (!newGuyDominated) {
-                  auto nd = bbPool->cloneNode(n);
+                  // when the cutset is the root, it is the current node that must be processed again (wider)
+                  auto nd = (n == relaxed->getRoot()) ? bbn.node : bbPool->cloneNode(n);
                   
                   //std::cout << "CLONED and got:"  << nd << "\n";
                   
-- 
2.43.0


From ab7f2a019d63c8025053b2065ba868e13123ff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:28 +0000
Subject: [PATCH 03/31] fix: explore a state again when the B&B reaches it by a
 better path

The B&B table dropped every state it had already seen, even when the new path to it was
strictly better than the recorded one, and the optimum could be lost.
---
 src/dd.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dd.hpp b/src/dd.hpp
index 34cc088..94d66d2 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -351,7 +351,7 @@ struct Maximize {
 };
 
 
-template <typename ST> requires Printable<ST> && Hashable<ST>
+template <typename ST,class Compare = Minimize<double>> requires Printable<ST> && Hashable<ST>
 class DDNodeAllocator :public AbstractNodeAllocator {
    LHashtable<ST> _nmap;
 public:
@@ -372,6 +372,9 @@ public:
             _nmap.safeInsertAt(inMap,nn);
             return nn;
          }
+      } else if (Compare{}.better(sp->getBound(),at->getBound())) {
+         at->resetWith(sp); // same state, reached by a better path: it must be explored (again)
+         return at;
       } else {
          //std::cout << "Already added node to B&B...." << "\n";         
          return nullptr;
@@ -580,7 +583,7 @@ public:
       return AbstractDD::Ptr(new DD(std::forward<Args>(args)...));
    }
    AbstractNodeAllocator::Ptr makeNDAllocator() const noexcept {
-      return std::shared_ptr<DDNodeAllocator<ST>>(new DDNodeAllocator<ST>(new LPool(new Pool)));
+      return std::shared_ptr<DDNodeAllocator<ST,Compare>>(new DDNodeAllocator<ST,Compare>(new LPool(new Pool)));
    }
    void printNode(std::ostream& os,ANode::Ptr n) const {
       auto sp = static_cast<const Node<ST>*>(n.get());
-- 
2.43.0


From 1968f66068f72da2a2ce483c6041c7ba4e90713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:20 +0000
Subject: [PATCH 04/31] fix: keep the solutions a relaxed diagram reaches
 through exact nodes only

The cutset ignores the arcs into the sink, so a root-to-sink path made of exact nodes in an
inexact relaxed diagram was covered by no subproblem; when the restricted diagram missed it too,
the optimum was lost.
---
 src/dd.cpp     | 26 ++++++++++++++++++++++++++
 src/dd.hpp     |  1 +
 src/search.cpp |  1 +
 3 files changed, 28 insertions(+)

diff --git a/src/dd.cpp b/src/dd.cpp
index f0f42a7..36ec7b1 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -72,6 +72,32 @@ bool AbstractDD::apply(ANode::Ptr from,Bounds& bnds)
    return isBetterValue;
 }
 
+// A path that reaches the sink through exact nodes only is a solution, even in a relaxed diagram. No
+// node of the cutset covers it, so its value is used right away.
+bool AbstractDD::applyExactPaths(Bounds& bnds)
+{
+   double best = bnds.getPrimal();
+   Edge::Ptr last = nullptr;
+   for(auto pi = _trg->beginPar();pi != _trg->endPar();pi++) {
+      Edge::Ptr e = *pi;
+      auto ep = e->_from->getBound() + e->_obj;
+      if (e->_from->isExact() && isBetter(ep,best)) {
+         best = ep;
+         last = e;
+      }
+   }
+   if (last) {
+      std::vector<int> sol {};
+      for(auto it = last->_from->beginOptLabels();it != last->_from->endOptLabels();it++)
+         sol.push_back(*it);
+      sol.push_back(last->_lbl);
+      bnds.setPrimal(best);
+      bnds.setIncumbent(sol.begin(),sol.end());
+      std::cout << std::setprecision(6) << "P TIGHTEN: " << bnds << "\n";
+   }
+   return last != nullptr;
+}
+
 std::vector<int> AbstractDD::incumbent()
 {
    std::vector<int> inc {};
diff --git a/src/dd.hpp b/src/dd.hpp
index 94d66d2..333fb43 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -120,6 +120,7 @@ public:
    virtual AbstractNodeAllocator::Ptr makeNDAllocator() const noexcept = 0;
    double currentOpt() const { return _trg->getBound();}
    bool apply(ANode::Ptr from,Bounds& bnds);
+   bool applyExactPaths(Bounds& bnds);
    std::vector<int> incumbent();
    void compute(Bounds& bnds);
    std::vector<ANode::Ptr> computeCutSet();
diff --git a/src/search.cpp b/src/search.cpp
index cb740f6..4161aea 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -123,6 +123,7 @@ void BAndB::search(Bounds& bnds)
          primalBetter = restricted->apply(bbn.node,bnds);
          
          if (!restricted->isExact() && !relaxed->isExact()) {
+            primalBetter = relaxed->applyExactPaths(bnds) || primalBetter;
             auto cutSet = relaxed->computeCutSet();
             //int k = 0;
             for(auto n : cutSet) {
-- 
2.43.0


From 7e4aedd6d50b3e6126915a4f079cd098d64dc9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:55 +0000
Subject: [PATCH 05/31] fix: never drop the sink as a dominated node

The first arc into the sink makes it look like a new node; when a queued node dominates it, the
last node of the diagram's node list was dropped in its place and the backward pass crashed.
---
 src/dd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 36ec7b1..c18a9f0 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -449,7 +449,7 @@ void Restricted::compute(Bounds& bnds)
                bool newNode = child->nbParents()==0; // is this a newly created node?
                auto theCost = _dd->cost(p,l);
                auto ep = p->getBound() + theCost;
-               if (hasDom && newNode) {
+               if (hasDom && newNode && child != _dd->_trg) { // the sink is never dropped
                   auto dominator = checkDominance(qn,child,ep);
                   if (dominator) {
                      _dd->_an.pop_back();
@@ -728,7 +728,7 @@ void Relaxed::compute(Bounds& bnds)
                bool newNode = child->nbParents()==0; // is this a newly created node?
                auto theCost = _dd->cost(p,l);
                auto ep = p->getBound() + theCost;
-               if (hasDom && newNode) {
+               if (hasDom && newNode && child != _dd->_trg) { // the sink is never dropped
                   auto dominator = qn.checkDominance(child,ep);
                   if (dominator) {
                      // ANode::Ptr justAdded = _dd->_an.back();
-- 
2.43.0


From c7f377dcf40f89e3ec11306c995d48b38bd703f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:52 +0000
Subject: [PATCH 06/31] fix: a Bounds object can be used for a second search

The solution callback that search() leaves in the Bounds kept a reference to a local variable of
the finished search and wrote through it when a later search found a solution.
---
 src/search.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/search.cpp b/src/search.cpp
index 4161aea..d346ea1 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -35,10 +35,10 @@ void BAndB::search(Bounds& bnds)
    auto last = start;
    cout << "B&B searching..." << endl;
    bnds.attach(_theDD);
-   double optTime = 0.0;
-   bnds.onSolution([ss,start,&optTime](const auto& lbls) {
-      optTime = RuntimeMonitor::elapsedSince(start);
-      std::cout << "TIME:" << setprecision(ss) << optTime << "\n";
+   auto optTime = std::make_shared<double>(0.0); // shared: the callback outlives this search
+   bnds.onSolution([ss,start,optTime](const auto& lbls) {
+      *optTime = RuntimeMonitor::elapsedSince(start);
+      std::cout << "TIME:" << setprecision(ss) << *optTime << "\n";
    });
    AbstractDD::Ptr relaxed = _theDD->duplicate();
    AbstractDD::Ptr restricted = _theDD->duplicate();
@@ -200,7 +200,7 @@ void BAndB::search(Bounds& bnds)
    auto spent = RuntimeMonitor::elapsedSince(start);
    cout << "Done(" << _mxw << "):" << bnds.getPrimal() << "\t #nodes:" <<  nNode << "/" << ttlNode
         << "\t P/D:" << pruned << "/" << insDom
-        << "\t Time:" << optTime/1000 << "/" << spent/1000 << "s"
+        << "\t Time:" << *optTime/1000 << "/" << spent/1000 << "s"
         << "\t LIM?:" << (pq.size() > 0)
         << "\t Seen:" << nbSeen
         << "\n";
-- 
2.43.0


From af714e4599b3d087ec38dfe3eb27ae9574aff1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:52 +0000
Subject: [PATCH 07/31] fix: report LIM?:1 whenever the limit stops the search

The flag was derived from the queue, so a search stopped by its limit when it had just extracted the
only open node claimed that the limit was not reached although nothing had been proved.
---
 src/search.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/search.cpp b/src/search.cpp
index d346ea1..4d72d75 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -61,6 +61,7 @@ void BAndB::search(Bounds& bnds)
    }
    unsigned nNode = 0,ttlNode = 0,insDom=0,pruned=0;
    bool primalBetter = false;
+   bool limited = false; // did the limit stop the search?
    cout << "B&B Nodes          " << setw(6) << "Dual\t " << setw(6) << "Primal\t Gap(%)\n";
    cout << "----------------------------------------------\n";
    while(!pq.empty()) {
@@ -79,8 +80,10 @@ void BAndB::search(Bounds& bnds)
       auto now = RuntimeMonitor::cputime();
       auto fs = RuntimeMonitor::elapsedMilliseconds(start,now);
       auto fl = RuntimeMonitor::elapsedMilliseconds(last,now);
-      if (_timeLimit && _timeLimit(fs))         
-         break;      
+      if (_timeLimit && _timeLimit(fs)) {
+         limited = true;
+         break;
+      }
       if (primalBetter || fl > 5000) {
          double gap = 100 * std::abs(bnds.getPrimal() - curDual) / bnds.getPrimal();      
          cout << std::fixed << "B&B(" << setw(5) << nNode << ")\t " << setprecision(6);
@@ -201,7 +204,7 @@ void BAndB::search(Bounds& bnds)
    cout << "Done(" << _mxw << "):" << bnds.getPrimal() << "\t #nodes:" <<  nNode << "/" << ttlNode
         << "\t P/D:" << pruned << "/" << insDom
         << "\t Time:" << *optTime/1000 << "/" << spent/1000 << "s"
-        << "\t LIM?:" << (pq.size() > 0)
+        << "\t LIM?:" << limited
         << "\t Seen:" << nbSeen
         << "\n";
 }
-- 
2.43.0


From 1295b9e9bb7ea8c759c1d62d5bd1cf4db5ef184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:57 +0000
Subject: [PATCH 08/31] fix: an exact diagram with a local bound keeps every
 improving solution

Transitions were filtered with the bound of the parent before that bound was
computed, so almost everything below the first layer was dropped.
---
 src/dd.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dd.cpp b/src/dd.cpp
index c18a9f0..da8e351 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -349,6 +349,9 @@ void Exact::compute(Bounds& bnds)
             Edge::Ptr e = new (_dd->_mem) Edge(p,child,l);
             e->_obj = theCost;
             _dd->addArc(e); // connect to new node
+            auto ep = p->getBound() + theCost;
+            if (_dd->isBetter(ep,child->getBound()))
+               child->setBound(ep); // transitions from child are filtered with its bound
             if (!_dd->eqSink(child)) {
                if (newNode)
                   qn.enQueue(child);
-- 
2.43.0


From 9ea3db5f6a16f426569dde0546cdd7e0b0e860dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:08 +0000
Subject: [PATCH 09/31] fix: a general set without words can be grown and
 iterated

GNSet(lb,ub) with lb > ub, GNSet of an empty Range and GNSet(0) hold no
word. insert doubled 0 words forever, and the iterator of a copy of such
a set (whose array is not null) started past its end.
---
 src/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.hpp b/src/util.hpp
index 1a7341e..d90c5c0 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -546,7 +546,7 @@ public:
       const int i = p >> 6;
       const auto old = _mxw;
       if (i >= _mxw) {
-         while(i >= _mxw) _mxw <<= 1;
+         while(i >= _mxw) _mxw = _mxw ? _mxw << 1 : 1;
          auto np = new unsigned long long[_mxw];
          for(int i=0;i < old;i++)
             np[i] = _t[i];
@@ -642,7 +642,7 @@ public:
       unsigned long long    _cw; // current word
       iterator(unsigned long long* t,unsigned short nbw,unsigned short at)
          : _t(t),_nbw(nbw),_cwi(at),_cw((at < nbw) ? t[at] : 0) {
-         while (_cw == 0 && _t && ++_cwi < _nbw) 
+         while (_cw == 0 && _cwi < _nbw && ++_cwi < _nbw) 
             _cw = _t[_cwi];         
       }
       iterator(unsigned long long* t,unsigned short nbw)
-- 
2.43.0


From c8d372d03e1e46872b9a49dfc927a3c285ee4a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:08 +0000
Subject: [PATCH 10/31] fix: removeAbove is bounded by the words a set really
 has

_nbp is the largest value inserted, or the capacity, or less than the
capacity after a complement or a union: removeAbove wrote past the last
word (GNSet{0..63}, removeAbove(63)) or kept elements it had to remove.
---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index d90c5c0..e29c821 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -609,7 +609,7 @@ public:
    }
    void removeAbove(int p) noexcept {
       int w = ++p >> 6;
-      if (p > _nbp) return;
+      if (w >= _mxw) return;
       assert(w >= 0 && w < _mxw);
       const int b = p & 63;
       _t[w] = _t[w] & ((1ull << b) - 1);
-- 
2.43.0


From 4404d940d0536389e41e22e10a162d202dc7715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:08 +0000
Subject: [PATCH 11/31] fix: equal general sets have equal hash values

operator== ignores empty words at the end of either set, hash did not:
{1} in one word and {1} in two words were equal with different hash values,
so tables of states missed equal states.
---
 src/util.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index e29c821..0a5224d 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -738,7 +738,9 @@ public:
   }
    std::size_t hash() const noexcept {
       std::size_t hv = 0;
-      for(auto i = 0;i < _mxw;i++)
+      auto nbw = _mxw;                           // equal sets may have different capacities:
+      while (nbw > 0 && _t[nbw-1] == 0) nbw--;   // the empty words at the end must not count.
+      for(auto i = 0;i < nbw;i++)
          hv = std::rotl(hv,2) ^ _t[i];
       return hv;
    }   
-- 
2.43.0


From 961e4ec6db85820079a6f37c864ff08312b378ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:08 +0000
Subject: [PATCH 12/31] fix: a general set that was moved from is empty

It kept its number of words without the words: assigning to it or copying
it wrote to or read from a null pointer.
---
 src/util.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util.hpp b/src/util.hpp
index 0a5224d..8794beb 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -442,6 +442,7 @@ public:
       _nbp = s._nbp;
       _t = s._t;
       s._t = nullptr;      
+      s._mxw = s._nbp = 0;
    }
    template <unsigned short nbw> GNSet(const NatSet<nbw>& s) {     
       _mxw = nbw;
@@ -521,6 +522,7 @@ public:
       _nbp = s._nbp;
       _t = s._t;
       s._t = nullptr;
+      s._mxw = s._nbp = 0;
       return *this;
    }
    short nbWords() const noexcept { return _mxw;}
-- 
2.43.0


From 0a8f56602dc1669036c913aa86f8f77142913912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:49 +0000
Subject: [PATCH 13/31] fix: an array that was moved from is empty

It kept its size without the elements: assigning to it or copying it
wrote to or read from a null pointer.
---
 src/util.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util.hpp b/src/util.hpp
index 8794beb..dff1c99 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -935,6 +935,7 @@ public:
    }
    FArray(FArray&& t) : _tab(t._tab),_mx(t._mx) {
       t._tab = nullptr;
+      t._mx = 0;
    }
    ~FArray() { if (_tab) delete[] _tab;}
    FArray& operator=(const FArray& t) {
@@ -952,6 +953,7 @@ public:
       _mx = a._mx;
       _tab = a._tab;
       a._tab = nullptr;
+      a._mx = 0;
       return *this;
    }
    std::size_t size() const noexcept { return _mx;}
-- 
2.43.0


From 8253f0f1b875b1a5e1a1ac0693dead8a3fbb1628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:49 +0000
Subject: [PATCH 14/31] fix: Range::contains agrees with the values a range
 iterates over

The end of a range is not one of its values, and a range may run backward.
---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index dff1c99..85c1bc8 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -100,7 +100,7 @@ public:
    Range(int f,int t) : _from(f),_to(t) {}
    Range(Range&& r) : _from(r._from),_to(r._to) {}
    Range(const Range& r) : _from(r._from),_to(r._to) {}
-   bool contains(int p) const noexcept { return _from <= p && p <= _to;}
+   bool contains(int p) const noexcept { return (_from <= _to) ? (_from <= p && p < _to) : (_to < p && p <= _from);}
    int size() const noexcept { return (_to >= _from) ? _to - _from : _from - _to;}
    auto largest() const noexcept { return (_to >= _from) ? _to : _from;}
    auto from() const noexcept  { return _from;}
-- 
2.43.0


From 745fa6899c1b28153d3778824f2a75d58ff8e7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:49 +0000
Subject: [PATCH 15/31] fix: the mirror of a fixed set over several words loses
 no element

64 - {2,64} gave {0}: the mask (1 << (x+1))-1 is empty for x = 63 (and
not needed, the shift drops the other bits). Moving by whole words also
erased words that were still to be moved and wrote past the last one.
---
 src/util.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util.hpp b/src/util.hpp
index 85c1bc8..f01d512 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -210,7 +210,7 @@ public:
          //std::cout << "MOVE Down=" << x << " lw:" << lw << "\n";
          unsigned long long nt[nbw] = {0}; 
          for(int i=0;i <= std::min(lw,nbw-1);i++) {
-            auto next =  (i+1==nbw) ? 0 : _t[i+1] & ((1ull << (x+1))-1); // get the next block to inject here.
+            auto next =  (i+1==nbw) ? 0 : _t[i+1]; // get the next block to inject here (its x lowest bits).
             nt[i] = (_t[i] >> x) | (next << (64 - x));
          }
          for(int i=0;i < nbw;i++) _t[i] = nt[i];         
@@ -226,9 +226,9 @@ public:
             assert(lw < nbw); // by definition, it's at most the index of the last word (1 less than size)
             unsigned long long nt[nbw] = {0}; 
             for(int i=0;i <= lw;i++) {
-               auto next = (i+1==nbw) ? 0 : _t[i+1] & ((1ull << (by+1))-1);
-               nt[i+delta] = (_t[i] >> by) | (next << (64 - by));
-               for(int j=i;j < i+delta;j++) _t[j] = 0;
+               auto next = (i+1==nbw) ? 0 : _t[i+1];
+               if (i + delta < nbw)
+                  nt[i+delta] = (_t[i] >> by) | (next << (64 - by));
             }
             for(int i=0;i < nbw;i++) _t[i] = nt[i];
          } else if (by < 0) {
-- 
2.43.0


From 8b772e68690ed0a3017e24d20083c17ed136ab79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:49 +0000
Subject: [PATCH 16/31] fix: Heap::find only returns elements that are in the
 heap

It also looked at the locations of extracted elements and at locations
that were never used.
---
 src/heap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heap.hpp b/src/heap.hpp
index def0caa..b94fecb 100644
--- a/src/heap.hpp
+++ b/src/heap.hpp
@@ -143,7 +143,7 @@ public:
       return _data[_at-1];
    }
    Location* find(const T& v) {
-      for(int i=1;i<_mxs;i++)
+      for(int i=1;i<_at;i++)
          if (_data[i]->_val == v)
             return _data[i];
       return nullptr;
-- 
2.43.0


From 0da4f59555905f6881bffeca2ffadad5f41972ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:49 +0000
Subject: [PATCH 17/31] fix: UnionFind::merge returns the representative of the
 merged set

---
 src/uf.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uf.hpp b/src/uf.hpp
index 5e3d109..3a29736 100644
--- a/src/uf.hpp
+++ b/src/uf.hpp
@@ -54,6 +54,7 @@ public:
       } else {
          r0->_parent = r1;
          r1->_sz += r0->_sz;
+         return r1;
       }
       return r0;
    }   
-- 
2.43.0


From c9622bd381cd70f347f28a8affb761177b52f011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:49 +0000
Subject: [PATCH 18/31] fix: a queue of initial size 0 keeps its elements apart

With a single slot the first resize put one location in two slots: the
second element overwrote the first.
---
 src/queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/queue.hpp b/src/queue.hpp
index bdfaef5..18e903f 100644
--- a/src/queue.hpp
+++ b/src/queue.hpp
@@ -74,7 +74,7 @@ template <typename T> class CQueue  {
    }
 public:
    CQueue(int sz = 32) : _mxSeg(8),_nbs(1) {
-      _mxs = 1;
+      _mxs = 2;  // one slot always stays free
       while (_mxs <= sz) _mxs <<= 1; // mxs must be a power of 2.
       _locs = new Location<T>[_mxs];
       _vlocs = new Location<T>*[_mxSeg];
-- 
2.43.0


From 4fa211523bd72e35c110d2d00f38dd1c5e7fa94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:49 +0000
Subject: [PATCH 19/31] fix: a hash table can be asked for fewer than 2 slots

The binary search in the table of primes went below index 0 and read out of
bounds or never ended.
---
 src/hashtable.hpp | 1 +
 src/lighthash.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/hashtable.hpp b/src/hashtable.hpp
index cf5e39a..d13ae5b 100644
--- a/src/hashtable.hpp
+++ b/src/hashtable.hpp
@@ -55,6 +55,7 @@ template <class K,class T,class Hash = std::hash<K>,class Equal = std::equal_to<
 public:
    Hashtable(Pool::Ptr p,std::size_t sz) : _pool(p) {
       constexpr const std::size_t tsz = sizeof(_primes)/sizeof(std::size_t);
+      if (sz < _primes[0]) sz = _primes[0]; // or else the search below goes under index 0
       std::size_t low=0,up = tsz - 1;
       while (low <= up) {
          int m = (low + up)/2;
diff --git a/src/lighthash.hpp b/src/lighthash.hpp
index a7091e1..da5205d 100644
--- a/src/lighthash.hpp
+++ b/src/lighthash.hpp
@@ -55,6 +55,7 @@ template <class ST,class Hash = std::hash<ST>,class Equal = std::equal_to<ST>> c
 public:
    LHashtable(Pool::Ptr p,std::size_t sz) : _pool(p) {
       constexpr const std::size_t tsz = sizeof(_primes)/sizeof(std::size_t);
+      if (sz < _primes[0]) sz = _primes[0]; // or else the search below goes under index 0
       std::size_t low=0,up = tsz - 1;
       while (low <= up) {
          int m = (low + up)/2;
-- 
2.43.0


From e91293d2d9e80a62c67356807bab1d9aca7d70e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:49 +0000
Subject: [PATCH 20/31] fix: display returns once when dot or open cannot be
 run

The child whose exec failed returned from display and ran the rest of the
program a second time (and a third).
---
 src/dd.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index da8e351..8f16bf2 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -208,15 +208,17 @@ void AbstractDD::display()
    out.close();
    pid_t child = fork();
    if (child == 0) {
-      int st = execlp("dot","dot","-Tpdf","-O",buf,NULL);
-      printf("execl status: %d\n",st);
+      execlp("dot","dot","-Tpdf","-O",buf,NULL);
+      perror("dot");
+      _exit(127); // the child must not carry on as a second copy of the program
    }
    int st = 0;
    waitpid(child,&st,0);
    child = fork();
    if (child == 0) {
       execlp("open","open",base.c_str(),NULL);
-      printf("execl2 status: %d\n",st);
+      perror("open");
+      _exit(127);
    }
    //unlink(buf);
 }
-- 
2.43.0


From a3502e5739bf10c6e67e35d1ead72f4a4ca22ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:11 +0000
Subject: [PATCH 21/31] fix: elements beyond 32767 come back unchanged from a
 set

The iterators of both kinds of sets returned a short, and the number of words
of a general set was an unsigned short: 40000 was iterated as -25536, and an
element from 2097152 on never stopped growing the set.
---
 src/util.hpp | 60 ++++++++++++++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/util.hpp b/src/util.hpp
index f01d512..0a48f80 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -328,10 +328,10 @@ public:
       iterator(const unsigned long long* t) : _t(t),_cwi(nbw),_cw(0) {} // end constructor
    public:
       using iterator_category = std::forward_iterator_tag;
-      using value_type = short;
-      using difference_type = short;
-      using pointer = short*;
-      using reference = short&;
+      using value_type = int;
+      using difference_type = int;
+      using pointer = int*;
+      using reference = int&;
       iterator& operator++()  noexcept {
          assert(_cwi >= nbw || _cw <= _t[_cwi]);
          long long test = _cw & -_cw;  // only leaves LSB at 1
@@ -345,7 +345,7 @@ public:
       iterator operator++(int) { iterator retval = *this; ++(*this); return retval;}
       bool operator==(iterator other) const {return _cwi == other._cwi && _cw == other._cw;}
       bool operator!=(iterator other) const {return !(*this == other);}
-      short operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
+      int operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
       friend class NatSet;
    };
    class citerator { 
@@ -361,10 +361,10 @@ public:
       citerator(const unsigned long long* t) : _t(t),_cwi(nbw),_cw(0) {} // end constructor
    public:
       using iterator_category = std::forward_iterator_tag;
-      using value_type = short;
-      using difference_type = short;
-      using pointer = short*;
-      using reference = short&;
+      using value_type = int;
+      using difference_type = int;
+      using pointer = int*;
+      using reference = int&;
       citerator& operator++()  noexcept {
          long long test = _cw & -_cw;  // only leaves LSB at 1
          _cw ^= test;                  // clear LSB
@@ -375,7 +375,7 @@ public:
       citerator operator++(int) { citerator retval = *this; ++(*this); return retval;}
       bool operator==(citerator other) const {return _cwi == other._cwi && _cw == other._cw;}
       bool operator!=(citerator other) const {return !(*this == other);}
-      short operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
+      int operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
       friend class NatSet;
    };
    iterator begin() const { return iterator(_t,0);}
@@ -418,8 +418,8 @@ public:
  * unionWith / interWith are O(1) (provided a constant number of words, otherwise Theta(n/64)
  */
 class GNSet {
-   unsigned short _mxw;
-   unsigned short _nbp;
+   int            _mxw;
+   int            _nbp;
    unsigned long long *_t;
 public:
    GNSet(unsigned short nb=64) { // 64 values ... so 0 .. 63 -> 1 word (65 values -> 0..64 -> 2 words)
@@ -525,21 +525,21 @@ public:
       s._mxw = s._nbp = 0;
       return *this;
    }
-   short nbWords() const noexcept { return _mxw;}
+   int nbWords() const noexcept { return _mxw;}
    int largestPossible() const noexcept { return _nbp;}
    void clear() noexcept {
-      for(short i=0;i < _mxw;i++)
+      for(int i=0;i < _mxw;i++)
          _t[i] = 0;
    }
    bool empty() const noexcept {
       int ttl = 0;
-      for(short i=0;(ttl==0) && i < _mxw;++i)
+      for(int i=0;(ttl==0) && i < _mxw;++i)
          ttl += (_t[i] != 0);
       return ttl==0;
    }
    int size() const noexcept {
       int ttl = 0;
-      for(short i=0;i < _mxw;++i)
+      for(int i=0;i < _mxw;++i)
          ttl += __builtin_popcountll(_t[i]);
       return ttl;
    }
@@ -559,7 +559,7 @@ public:
       }
       assert(i>=0 && i < _mxw);
       _t[i] |= (1ull << (p & 63));
-      _nbp = std::max(_nbp,(unsigned short)p);
+      _nbp = std::max(_nbp,p);
       return *this;
    }
    GNSet& remove(int p) noexcept {
@@ -569,7 +569,7 @@ public:
       return *this;
    }
    GNSet& complement() noexcept {
-      for(short i=0;i < _mxw;++i)
+      for(int i=0;i < _mxw;++i)
          _t[i] = ~_t[i];
       return *this;
    }
@@ -580,7 +580,7 @@ public:
       return (_t[at] &  (1ull << (p & 63))) != 0;
    }
    GNSet& unionWith(const GNSet& ps) noexcept {
-      short i;
+      int i;
       for(i=0;i < std::min(_mxw,ps._mxw);i++)
          _t[i] |= ps._t[i];
       if (_mxw < ps._mxw) {
@@ -597,7 +597,7 @@ public:
       return *this;
    }
    GNSet& interWith(const GNSet& ps) noexcept {
-      short i;
+      int i;
       for(i=0;i < std::min(_mxw,ps._mxw);i++)
          _t[i] &= ps._t[i];
       while(i < _mxw)
@@ -605,7 +605,7 @@ public:
       return  *this;
    }
    GNSet& diffWith(const GNSet& ps) noexcept {
-      for(short i=0;i < std::min(_mxw,ps._mxw);i++)
+      for(int i=0;i < std::min(_mxw,ps._mxw);i++)
          _t[i] = _t[i] & ~ps._t[i];
       return *this;
    }
@@ -639,15 +639,15 @@ public:
    }
    class iterator { 
       unsigned long long*    _t;
-      const unsigned short _nbw;
-      unsigned short       _cwi;    // current word index
+      const int            _nbw;
+      int                  _cwi;    // current word index
       unsigned long long    _cw; // current word
-      iterator(unsigned long long* t,unsigned short nbw,unsigned short at)
+      iterator(unsigned long long* t,int nbw,int at)
          : _t(t),_nbw(nbw),_cwi(at),_cw((at < nbw) ? t[at] : 0) {
          while (_cw == 0 && _cwi < _nbw && ++_cwi < _nbw) 
             _cw = _t[_cwi];         
       }
-      iterator(unsigned long long* t,unsigned short nbw)
+      iterator(unsigned long long* t,int nbw)
          : _t(t),_nbw(nbw),_cwi(nbw),_cw(0) {} // end constructor
       iterator& operator=(const iterator i) {
          _t = i._t;
@@ -658,10 +658,10 @@ public:
       }
    public:
       using iterator_category = std::forward_iterator_tag;
-      using value_type = short;
-      using difference_type = short;
-      using pointer = short*;
-      using reference = short&;
+      using value_type = int;
+      using difference_type = int;
+      using pointer = int*;
+      using reference = int&;
       iterator& operator++()  noexcept {
          long long test = _cw & -_cw;  // only leaves LSB at 1
          _cw ^= test;                  // clear LSB
@@ -672,7 +672,7 @@ public:
       iterator operator++(int) { iterator retval = *this; ++(*this); return retval;}
       bool operator==(iterator other) const {return _cwi == other._cwi && _cw == other._cw;}
       bool operator!=(iterator other) const {return !(*this == other);}
-      short operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
+      int operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
       friend class GNSet;
    };
    iterator begin() const { return iterator(_t,_mxw,0);}
-- 
2.43.0


From 3067b74bbaee0174a78aa47b499bc982d3a1e467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:03 +0000
Subject: [PATCH 22/31] fix: states can merge into one that was dropped as
 dominated

---
 src/dd.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dd.hpp b/src/dd.hpp
index 333fb43..eb34dd5 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -534,7 +534,9 @@ private:
          // std::cout << "Merge\n";
          // std::cout << "\tF:";printNode(std::cout,f);std::cout<<"\n";
          // std::cout << "\tS:";printNode(std::cout,s);std::cout<<"\n";         
-         if (inMap && inMap->getLayer() < std::max(fp->getLayer(),sp->getLayer()))
+         // a node that was created but dropped since (dominated) has no layer: it can be used again
+         const bool dropped = inMap && inMap->nbParents() == 0 && inMap != _root && inMap != _trg;
+         if (inMap && !dropped && inMap->getLayer() < std::max(fp->getLayer(),sp->getLayer()))
             return nullptr;
          ANode::Ptr rv = makeNode(std::move(vs.value()));
          if (isBetter(fp->getBound(),rv->getBound())) {
-- 
2.43.0


From f6102a109ff39c6a0a52e4f9e7a01bd275740faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:50 +0000
Subject: [PATCH 23/31] fix: sorting crashes on long sequences and on elements
 that own memory

---
 src/msort.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/msort.hpp b/src/msort.hpp
index a897aa3..5a5a70b 100644
--- a/src/msort.hpp
+++ b/src/msort.hpp
@@ -4,6 +4,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <cstdio>
+#include <memory>
 
 template <typename T,typename F> void mergeSortAux(T* v,
                                                    const std::size_t from,
@@ -33,9 +34,10 @@ template <typename T,typename F> void mergeSortAux(T* v,
 template <typename T,typename F>
 void mergeSort(T* c,std::size_t sz,const F& cmp)
 {
-   T* aux = (T*)alloca(sizeof(T)*sz);
-   for(auto i=0u;i < sz;i++) aux[i] = c[i];
-   mergeSortAux(c,0,sz,cmp,aux);
+   // On the heap (a long sequence does not fit on the stack) and constructed (T may own memory)
+   std::unique_ptr<T[]> aux(new T[sz]);
+   for(std::size_t i=0;i < sz;i++) aux[i] = c[i];
+   mergeSortAux(c,0,sz,cmp,aux.get());
 }
 
 
-- 
2.43.0


From a46f6df84885d0236cc8a49aa0df6b1ceecc8698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:51 +0000
Subject: [PATCH 24/31] fix: debug builds abort on a block that does not fit an
 empty segment

---
 src/store.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/store.cpp b/src/store.cpp
index 47c0864..a46a2b7 100644
--- a/src/store.cpp
+++ b/src/store.cpp
@@ -45,7 +45,6 @@ void* Pool::allocate(std::size_t sz)
    assert((sz & 0xF) == 0 && sz != 0);           // check alignment
    auto s = _store[_seg];
    while(_top + sz > s->_sz) {
-      assert(_top != 0);
       ++_seg;
       if (_seg >= _nbSeg) {
          if (_nbSeg == _mxs) {
-- 
2.43.0


From 9cb01c842d98e05c10b78b9f6a2c47a55ce81262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:51 +0000
Subject: [PATCH 25/31] fix: debug builds abort on a full fixed-size set and on
 the downward range of 0 alone

---
 src/util.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/util.hpp b/src/util.hpp
index 0a48f80..9696e52 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -148,7 +148,7 @@ public:
          ++ub;
          assert(ub >= 0);
          assert(lb <= ub);
-         assert((ub >> 6) < nbw);
+         assert(((ub - 1) >> 6) < nbw);
          for(int i=0;i<nbw;i++) _t[i]=0;
          for(auto i = lb;i < ub;i++) {
             const int ix = i >> 6;
@@ -459,7 +459,6 @@ public:
       } else {
          _mxw = ((ub & 0x3f)? 1 : 0) + (ub >> 6); // if remainder 1 : 0 + division
          _nbp = _mxw << 6;
-         assert(_mxw != 0);
          _t = new unsigned long long[_mxw];
          for(int i=0;i<_mxw;i++) _t[i]=0;
          for(auto i : s)
-- 
2.43.0


From 514eefc48fc5791355eca14cf3e1a67eb7a6fc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:51 +0000
Subject: [PATCH 26/31] fix: flipping a downward range yields other values

---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index 9696e52..efda006 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -105,7 +105,7 @@ public:
    auto largest() const noexcept { return (_to >= _from) ? _to : _from;}
    auto from() const noexcept  { return _from;}
    auto to() const noexcept    { return _to;}
-   auto flip() const noexcept  { return Range(_to -1,_from-1);}
+   auto flip() const noexcept  { return (_from <= _to) ? Range(_to -1,_from-1) : Range(_to + 1,_from + 1);}
    auto begin() const noexcept { return iterator(_from <= _to ? Forward : Backward,_from); }
    auto end() const  noexcept  { return iterator(_from <= _to ? Forward : Backward,_to); }
    static Range open(int f,int t) noexcept  { return Range(f,t);}
-- 
2.43.0


From 1b337abd751ee048599cc88099237c2d10c44ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:56 +0000
Subject: [PATCH 27/31] fix: a search keeps its nodes, states, pool and
 strategies for ever

---
 src/dd.hpp     | 7 +++++++
 src/search.cpp | 6 ++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/dd.hpp b/src/dd.hpp
index eb34dd5..7502b94 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -357,6 +357,13 @@ class DDNodeAllocator :public AbstractNodeAllocator {
    LHashtable<ST> _nmap;
 public:
    DDNodeAllocator(LPool::Ptr pool) : AbstractNodeAllocator(pool),_nmap(pool->get(),CODD_TABLE_SIZE) {}
+   ~DDNodeAllocator() { // the nodes, their states and the pool go away with the allocator
+      _nmap.doOnAll([](Node<ST>* np) {
+         np->~Node<ST>();
+      });
+      delete _base->get();
+      delete _base;
+   }
    ANode::Ptr cloneNode(ANode::Ptr src) override {
       auto sp = static_cast<const Node<ST>*>(src.get());
       Node<ST>* at = nullptr;
diff --git a/src/search.cpp b/src/search.cpp
index 4d72d75..6b68bc2 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -44,8 +44,10 @@ void BAndB::search(Bounds& bnds)
    AbstractDD::Ptr restricted = _theDD->duplicate();
    WidthBounded* ddr[2];
    //_theDD->setStrategy(new Exact);
-   relaxed->setStrategy(ddr[0] = new Relaxed(_mxw));
-   restricted->setStrategy(ddr[1] = new Restricted(_mxw));
+   Relaxed    relaxedStrategy(_mxw);
+   Restricted restrictedStrategy(_mxw);
+   relaxed->setStrategy(ddr[0] = &relaxedStrategy);
+   restricted->setStrategy(ddr[1] = &restrictedStrategy);
    auto hOrder = [relaxed](const QNode& a,const QNode& b) {
       return relaxed->isBetter(a.bound,b.bound);
    };
-- 
2.43.0


From 3b9208ad9ba7eeda3db549c5cbbdc50399b89c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:52 +0000
Subject: [PATCH 28/31] fix: a search leaves its timing callback in the bounds

---
 src/dd.hpp     | 6 ++++--
 src/search.cpp | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dd.hpp b/src/dd.hpp
index 7502b94..77483fc 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -49,9 +49,11 @@ public:
       for(const auto& f : _checker)
          f(_inc);
    }
-   void onSolution(SolutionCB cb) {
-      _checker.push_back(cb);
+   typedef std::list<SolutionCB>::iterator CBHandle;
+   CBHandle onSolution(SolutionCB cb) {
+      return _checker.insert(_checker.end(),cb);
    }
+   void forget(CBHandle h) { _checker.erase(h);} // h is what onSolution returned
    friend std::ostream& operator<<(std::ostream& os,const Bounds& b) {
       return os << "<P:" << b._primal << /* "," << " D:" << b._dual << */ ", INC:" << b._inc << ">";
    }
diff --git a/src/search.cpp b/src/search.cpp
index 6b68bc2..53a3ab6 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -35,8 +35,8 @@ void BAndB::search(Bounds& bnds)
    auto last = start;
    cout << "B&B searching..." << endl;
    bnds.attach(_theDD);
-   auto optTime = std::make_shared<double>(0.0); // shared: the callback outlives this search
-   bnds.onSolution([ss,start,optTime](const auto& lbls) {
+   auto optTime = std::make_shared<double>(0.0);
+   auto timer = bnds.onSolution([ss,start,optTime](const auto& lbls) {
       *optTime = RuntimeMonitor::elapsedSince(start);
       std::cout << "TIME:" << setprecision(ss) << *optTime << "\n";
    });
@@ -201,6 +201,7 @@ void BAndB::search(Bounds& bnds)
          //std::cout << "DB:F " <<  "Primal:" << bnds.getPrimal() << " Dual:" << relaxed->currentOpt()  << "\n";      
       bbPool->release(bbn.node);
    }
+   bnds.forget(timer); // later searches have their own
    cout << setprecision(ss);
    auto spent = RuntimeMonitor::elapsedSince(start);
    cout << "Done(" << _mxw << "):" << bnds.getPrimal() << "\t #nodes:" <<  nNode << "/" << ttlNode
-- 
2.43.0


From 15b9136fa33d25799fecb7da3616b29accb1052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:04 +0000
Subject: [PATCH 29/31] fix: every drawing leaves a file open

---
 src/dd.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 8f16bf2..3d298d3 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -200,8 +200,9 @@ void AbstractDD::display()
 {
    const std::string gLabel = _strat->getName();
    char buf[256] = "/tmp/dotfile-XXXXXXX";
-   mkstemp(buf);
+   int fd = mkstemp(buf);
    std::ofstream out(buf);
+   if (fd >= 0) close(fd); // only the name is needed
    std::string base = buf;
    base = base + ".pdf";
    saveGraph(out,gLabel);
-- 
2.43.0


From 883825a163a67fb48737cd670cd319f5fcccd6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:11 +0000
Subject: [PATCH 30/31] fix: every drawing takes memory of the diagram for good

---
 src/dd.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dd.cpp b/src/dd.cpp
index 3d298d3..6bdc499 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -135,6 +135,7 @@ void AbstractDD::print(std::ostream& os,std::string gLabel)
 {
    display();
    std::cout << "PRINTING: --------------------------------------------------\n";
+   auto mark = _mem->mark();
    Heap<DNode> h(_mem,1000,[](const DNode& a,const DNode& b) { return a.degree < b.degree;});
    for(auto n : _an) {
       h.insert({n,n->nbParents()});
@@ -151,11 +152,13 @@ void AbstractDD::print(std::ostream& os,std::string gLabel)
          h.decrease(at);
       }
    }
+   _mem->clear(mark);
 }
 
 
 void AbstractDD::saveGraph(std::ostream& os,std::string gLabel)
 {
+   auto mark = _mem->mark();
    Heap<DNode> h(_mem,1000,[](const DNode& a,const DNode& b) { return a.degree < b.degree;});
    std::cout << "AN.size()=" << _an.size() << "\n";
    for(auto n : _an) {
@@ -194,6 +197,7 @@ void AbstractDD::saveGraph(std::ostream& os,std::string gLabel)
       }
    }
    os << "}" << std::endl;
+   _mem->clear(mark);
 }
 
 void AbstractDD::display()
-- 
2.43.0


From ec7cd1fe72b32ff3c3255c81e00e82ef88b8f98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 31/31] fix: revBitsOfWord leaves one byte undefined

---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index efda006..9efd37c 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -56,7 +56,7 @@ namespace std {
       unsigned long long out;
       unsigned char* sw = (unsigned char*)&w;
       unsigned char* dw = (unsigned char*)&out;
-      for(int i=0;i < 7;i++)
+      for(int i=0;i < 8;i++)
          dw[i] = revBitsOfByte(sw[7-i]);
       return out;
    }
-- 
2.43.0

