// C12: Tree Borrows. The state machine, its application to every node of the tree, protectors, reborrows.

// ------------------------------------------------------------------ the state machine
/// what an access does to a permission without protector (None: undefined behaviour)
pub open spec fn unprot_next(p: PermissionUnprot, k: AccessKind, rel: NodeRelation) -> Option<PermissionUnprot> {
    if rel == NodeRelation::Local {
        if p is Disabled || (p is Frozen && k == AccessKind::Write) { None }
        else if k == AccessKind::Write && !(p is Cell) { Some(PermissionUnprot::Unique) }
        else { Some(p) }
    } else if k == AccessKind::Read {
        if p is Unique { Some(PermissionUnprot::Frozen) } else { Some(p) }
    } else {
        if p is Cell || p is ReservedIm { Some(p) } else { Some(PermissionUnprot::Disabled) }
    }
}
/// what an access does to a protected permission
pub open spec fn prot_next(p: PermissionProt, k: AccessKind, rel: NodeRelation) -> Option<PermissionProt> {
    if rel == NodeRelation::Local && k == AccessKind::Read {
        match p {
            PermissionProt::Disabled => None,
            PermissionProt::Reserved { had_foreign_read, .. } => Some(PermissionProt::Reserved { had_local_read: true, had_foreign_read }),
            PermissionProt::Frozen { .. } => Some(PermissionProt::Frozen { had_local_read: true }),
            _ => Some(p),
        }
    } else if rel == NodeRelation::Local {
        match p {
            PermissionProt::Cell => Some(p),
            PermissionProt::Unique => Some(p),
            PermissionProt::Reserved { had_foreign_read, .. } => if had_foreign_read { None } else { Some(PermissionProt::Unique) },
            _ => None,
        }
    } else if k == AccessKind::Read {
        match p {
            PermissionProt::Unique => None,
            PermissionProt::Reserved { had_local_read, .. } => Some(PermissionProt::Reserved { had_local_read, had_foreign_read: true }),
            _ => Some(p),
        }
    } else {
        match p {
            PermissionProt::Cell => Some(p),
            _ => if used(p) { None } else { Some(PermissionProt::Disabled) },
        }
    }
}
/// the reference was used since it was protected
pub open spec fn used(p: PermissionProt) -> bool {
    match p {
        PermissionProt::Unique => true,
        PermissionProt::Reserved { had_local_read, .. } => had_local_read,
        PermissionProt::Frozen { had_local_read } => had_local_read,
        _ => false,
    }
}
pub open spec fn next(p: Permission, k: AccessKind, rel: NodeRelation) -> Option<Permission> {
    match p {
        Permission::Unprot(q) => match unprot_next(q, k, rel) { Some(r) => Some(Permission::Unprot(r)), None => None },
        Permission::Prot(q) => match prot_next(q, k, rel) { Some(r) => Some(Permission::Prot(r)), None => None },
    }
}
pub proof fn unprotected_machine(p: PermissionUnprot, k: AccessKind, rel: NodeRelation)
    ensures PermissionUnprot__transition_ok(p, k, rel), ({
        let r = PermissionUnprot__transition(p, k, rel);
        match unprot_next(p, k, rel) { Some(q) => r == Ok::<PermissionUnprot, TerminationInfo>(q), None => is_ub(r) }
    })
{ }
pub proof fn protected_machine(p: PermissionProt, k: AccessKind, rel: NodeRelation)
    ensures PermissionProt__transition_ok(p, k, rel), ({
        let r = PermissionProt__transition(p, k, rel);
        match prot_next(p, k, rel) { Some(q) => r == Ok::<PermissionProt, TerminationInfo>(q), None => is_ub(r) }
    })
{ }
pub proof fn permission_transition(p: Permission, k: AccessKind, rel: NodeRelation)
    ensures Permission__transition_ok(p, k, rel), ({
        let (q, r) = Permission__transition(p, k, rel);
        match next(p, k, rel) { Some(n) => r is Ok && q == n, None => is_ub(r) && q == p }
    })
{ }
/// only a protected reference can make somebody else's access undefined behaviour
pub proof fn foreign_access_without_protector(p: PermissionUnprot, k: AccessKind)
    ensures PermissionUnprot__transition(p, k, NodeRelation::Foreign) is Ok
{ }
/// a dead reference stays dead; a frozen one never becomes writable again
pub proof fn no_resurrection(p: PermissionUnprot, k: AccessKind, rel: NodeRelation)
    ensures ({
        let r = PermissionUnprot__transition(p, k, rel);
        &&& (p is Disabled && r is Ok ==> r->Ok_0 is Disabled)
        &&& (p is Frozen && r is Ok ==> r->Ok_0 is Frozen || r->Ok_0 is Disabled)
        &&& (p is Cell ==> r is Ok && r->Ok_0 is Cell)
    })
{ }
/// accesses repeated change nothing more
pub proof fn idempotent(p: Permission, k: AccessKind, rel: NodeRelation)
    ensures next(p, k, rel) is Some ==> next(next(p, k, rel)->0, k, rel) == next(p, k, rel)
{ }
/// releasing a protector: the accesses it stands for are emitted again, and the permission is what it would be without flags
pub proof fn unprotect(p: PermissionProt)
    ensures PermissionProt__unprotect_ok(p), Permission__unprotect_ok(Permission::Prot(p)), ({
        let (q, a) = PermissionProt__unprotect(p);
        &&& Permission__unprotect(Permission::Prot(p)) == (Permission::Unprot(q), a)
        &&& (a is Some <==> used(p))
        &&& (a == Some(AccessKind::Write) <==> p is Unique)
        &&& (p is Cell <==> q is Cell) && (p is Unique <==> q is Unique) && (p is Frozen <==> q is Frozen) && (p is Disabled <==> q is Disabled) && (p is Reserved <==> q is Reserved)
        &&& (a is Some ==> unprot_next(q, a->0, NodeRelation::Local) == Some(q))
    })
{ }
/// a protected permission blocks deallocation exactly if a foreign write would be undefined behaviour
pub proof fn prevents_deallocation(p: Permission)
    ensures Permission__prevents_deallocation_ok(p), Permission__prevents_deallocation(p) == (next(p, AccessKind::Write, NodeRelation::Foreign) is None),
        Permission__prevents_deallocation(p) ==> p is Prot,
{ }
/// a new reference performs a read of everything it covers, except inside UnsafeCell behind a shared reference
pub proof fn init_access(p: Permission)
    ensures Permission__init_access_ok(p), ({
        let cell = match p { Permission::Unprot(q) => q is Cell, Permission::Prot(q) => q is Cell };
        Permission__init_access(p) == if cell { None } else { Some(AccessKind::Read) }
    })
{ }

// ------------------------------------------------------------------ the tree
pub open spec fn tree_wf(n: Node, len: int) -> bool
    decreases n
{
    n.permissions.s.len() == len && n.children.s.len() < 0x1_0000_0000_0000_0000 && forall|j: int| 0 <= j < n.children.s.len() ==> tree_wf(#[trigger] n.children.s[j], len)
}
/// q leads from n to a node
pub open spec fn valid_path(n: Node, q: Seq<int>) -> bool
    decreases q.len()
{
    q.len() == 0 || (0 <= q[0] < n.children.s.len() && valid_path(n.children.s[q[0]], q.drop_first()))
}
pub open spec fn node_at(n: Node, q: Seq<int>) -> Node
    decreases q.len()
{
    if q.len() == 0 { n } else { node_at(n.children.s[q[0]], q.drop_first()) }
}
pub open spec fn subpath(p: Option<List<int>>, i: int) -> Option<List<int>> {
    if p is Some && (p->0).s.len() > 0 && (p->0).s[0] == i { Some(List { s: (p->0).s.drop_first() }) } else { None }
}
/// the relation of the node at q to the accessed node at p: local exactly if q is p or one of its ancestors
pub open spec fn rel_of(p: Option<List<int>>, q: Seq<int>) -> NodeRelation
    decreases q.len()
{
    if q.len() == 0 { if p is Some { NodeRelation::Local } else { NodeRelation::Foreign } } else { rel_of(subpath(p, q[0]), q.drop_first()) }
}
pub proof fn relation_is_prefix(p: Seq<int>, q: Seq<int>)
    ensures (rel_of(Some(List { s: p }), q) == NodeRelation::Local) <==> (q.len() <= p.len() && q =~= p.subrange(0, q.len() as int))
    decreases q.len()
{
    let pp: Option<List<int>> = Some(List { s: p });
    if q.len() > 0 {
        if p.len() > 0 && p[0] == q[0] {
            relation_is_prefix(p.drop_first(), q.drop_first());
            let a = p.drop_first(); let b = q.drop_first();
            assert(subpath(pp, q[0]) == Some(List { s: a }));
            if b.len() <= a.len() && b =~= a.subrange(0, b.len() as int) {
                assert(forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] == p[i]) by {
                    assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] == p[i] by { if i > 0 { assert(b[i - 1] == a.subrange(0, b.len() as int)[i - 1]); } }
                }
                assert(q =~= p.subrange(0, q.len() as int));
            }
            if q.len() <= p.len() && q =~= p.subrange(0, q.len() as int) {
                assert forall|i: int| 0 <= i < b.len() implies b[i] == a.subrange(0, b.len() as int)[i] by { assert(q[i + 1] == p.subrange(0, q.len() as int)[i + 1]); }
                assert(b =~= a.subrange(0, b.len() as int));
            }
        } else {
            assert(subpath(pp, q[0]) is None);
            none_is_foreign(q.drop_first());
            if q.len() <= p.len() && q =~= p.subrange(0, q.len() as int) { assert(q[0] == p.subrange(0, q.len() as int)[0]); }
        }
    } else { assert(q =~= p.subrange(0, 0)); }
}
pub proof fn none_is_foreign(q: Seq<int>)
    ensures rel_of(None, q) == NodeRelation::Foreign
    decreases q.len()
{ if q.len() > 0 { none_is_foreign(q.drop_first()); } }

/// one node: exactly the accessed bytes make their transition; if one of them cannot, undefined behaviour
pub proof fn transition_loop(n: Node, end: int, i: int, rel: NodeRelation, k: AccessKind)
    requires 0 <= i, end <= n.permissions.s.len()
    ensures Node__transition__loop1_ok(end, i, rel, k, n), ({
        match Node__transition__loop1(end, i, rel, k, n) {
            Flow::Cont(m) => m.children == n.children && m.protected == n.protected && m.permissions.s.len() == n.permissions.s.len()
                && (forall|o: int| 0 <= o < n.permissions.s.len() ==> #[trigger] m.permissions.s[o] == if i <= o < end { next(n.permissions.s[o], k, rel)->0 } else { n.permissions.s[o] })
                && (forall|o: int| i <= o < end ==> next(#[trigger] n.permissions.s[o], k, rel) is Some),
            Flow::Exit(x) => is_ub(x.1) && x.0.children == n.children && x.0.protected == n.protected && x.0.permissions.s.len() == n.permissions.s.len()
                && (exists|o: int| i <= o < end && next(#[trigger] n.permissions.s[o], k, rel) is None),
        }
    })
    decreases end - i
{
    if i < end {
        permission_transition(n.permissions.s[i], k, rel);
        if next(n.permissions.s[i], k, rel) is Some {
            let m = Node { permissions: List { s: n.permissions.s.update(i, next(n.permissions.s[i], k, rel)->0) }, ..n };
            transition_loop(m, end, i + 1, rel, k);
            assert(forall|o: int| i < o < end ==> m.permissions.s[o] == n.permissions.s[o]);
            if Node__transition__loop1(end, i + 1, rel, k, m) is Exit {
                let o = choose|o: int| i + 1 <= o < end && next(#[trigger] m.permissions.s[o], k, rel) is None;
                assert(next(n.permissions.s[o], k, rel) is None);
            }
        }
    }
}
pub open spec fn touched(n: Node, m: Node, rel: NodeRelation, k: AccessKind, off: Size, size: Size) -> bool {
    &&& m.protected == n.protected && m.permissions.s.len() == n.permissions.s.len()
    &&& forall|o: int| 0 <= o < n.permissions.s.len() ==> #[trigger] m.permissions.s[o] == if off.raw <= o < off.raw + size.raw { next(n.permissions.s[o], k, rel)->0 } else { n.permissions.s[o] }
    &&& forall|o: int| off.raw <= o < off.raw + size.raw ==> next(#[trigger] n.permissions.s[o], k, rel) is Some
}
pub open spec fn refuses(n: Node, rel: NodeRelation, k: AccessKind, off: Size, size: Size) -> bool {
    exists|o: int| off.raw <= o < off.raw + size.raw && next(#[trigger] n.permissions.s[o], k, rel) is None
}
pub proof fn node_transition(n: Node, rel: NodeRelation, k: AccessKind, off: Size, size: Size)
    requires 0 <= off.raw, off.raw + size.raw <= n.permissions.s.len()
    ensures Node__transition_ok(n, rel, k, off, size), ({
        let (m, r) = Node__transition(n, rel, k, off, size);
        &&& m.children == n.children && m.protected == n.protected && m.permissions.s.len() == n.permissions.s.len()
        &&& (refuses(n, rel, k, off, size) ==> is_ub(r))
        &&& (!refuses(n, rel, k, off, size) ==> r is Ok && touched(n, m, rel, k, off, size))
    })
{ transition_loop(n, off.raw + size.raw, off.raw, rel, k); }

/// the children visited so far have been accessed, the rest is untouched
pub open spec fn visited(n: Node, m: Node, i: int, p: Option<List<int>>, k: AccessKind, off: Size, size: Size) -> bool {
    &&& m.protected == n.protected && m.permissions == n.permissions && m.children.s.len() == n.children.s.len()
    &&& forall|j: int| 0 <= j < n.children.s.len() ==> #[trigger] m.children.s[j] == if j < i { Node__access(n.children.s[j], subpath(p, j), k, off, size).0 } else { n.children.s[j] }
}
pub proof fn access_loop(n: Node, b: Node, m: Node, i: int, p: Option<List<int>>, k: AccessKind, off: Size, size: Size, len: int)
    requires tree_wf(n, len), b.children == n.children, 0 <= i <= n.children.s.len(), visited(b, m, i, p, k, off, size), 0 <= off.raw, 0 <= size.raw, off.raw + size.raw <= len
    ensures Node__access__loop1_ok(n.children.s.len() as int, i, p, k, off, size, m), ({
        let end = n.children.s.len() as int;
        match Node__access__loop1(end, i, p, k, off, size, m) {
            Flow::Cont(x) => visited(b, x, end, p, k, off, size) && (forall|j: int| i <= j < end ==> Node__access(#[trigger] n.children.s[j], subpath(p, j), k, off, size).1 is Ok),
            Flow::Exit(x) => is_ub(x.1) && (exists|j: int| i <= j < end && Node__access(#[trigger] n.children.s[j], subpath(p, j), k, off, size).1 is Err),
        }
    })
    decreases n, 0int, n.children.s.len() - i
{
    let end = n.children.s.len() as int;
    Node__access__loop1__def(end, i, p, k, off, size, m);
    Node__access__loop1_ok__def(end, i, p, k, off, size, m);
    if i < end {
        let c = n.children.s[i];
        assert(tree_wf(c, len));
        assert(m.children.s[i] == c);
        access_ok(c, subpath(p, i), k, off, size, len);
        let x = Node__access(c, subpath(p, i), k, off, size);
        let m2 = Node { children: List { s: m.children.s.update(i, x.0) }, ..m };
        if x.1 is Ok {
            access_loop(n, b, m2, i + 1, p, k, off, size, len);
        }
    }
}
/// an access never panics on a well-formed tree, and only fails with undefined behaviour
pub proof fn access_ok(n: Node, p: Option<List<int>>, k: AccessKind, off: Size, size: Size, len: int)
    requires tree_wf(n, len), 0 <= off.raw, 0 <= size.raw, off.raw + size.raw <= len
    ensures Node__access_ok(n, p, k, off, size), Node__access(n, p, k, off, size).1 is Err ==> is_ub(Node__access(n, p, k, off, size).1)
    decreases n, 1int, 0int
{
    let rel = if p is Some { NodeRelation::Local } else { NodeRelation::Foreign };
    Node__access__def(n, p, k, off, size);
    Node__access_ok__def(n, p, k, off, size);
    node_transition(n, rel, k, off, size);
    let t = Node__transition(n, rel, k, off, size);
    if t.1 is Ok { access_loop(n, t.0, t.0, 0, p, k, off, size, len); }
}
/// one level: the node makes its transition, every child is accessed with its part of the path
pub proof fn access_step(n: Node, p: Option<List<int>>, k: AccessKind, off: Size, size: Size, len: int)
    requires tree_wf(n, len), 0 <= off.raw, 0 <= size.raw, off.raw + size.raw <= len
    ensures ({
        let (m, r) = Node__access(n, p, k, off, size);
        let rel = rel_of(p, Seq::<int>::empty());
        &&& (r is Ok ==> touched(n, m, rel, k, off, size) && m.children.s.len() == n.children.s.len()
            && (forall|j: int| 0 <= j < n.children.s.len() ==> #[trigger] m.children.s[j] == Node__access(n.children.s[j], subpath(p, j), k, off, size).0)
            && (forall|j: int| 0 <= j < n.children.s.len() ==> Node__access(#[trigger] n.children.s[j], subpath(p, j), k, off, size).1 is Ok))
        &&& (r is Err ==> refuses(n, rel, k, off, size) || exists|j: int| 0 <= j < n.children.s.len() && Node__access(#[trigger] n.children.s[j], subpath(p, j), k, off, size).1 is Err)
    })
{
    let rel = if p is Some { NodeRelation::Local } else { NodeRelation::Foreign };
    Node__access__def(n, p, k, off, size);
    node_transition(n, rel, k, off, size);
    let t = Node__transition(n, rel, k, off, size);
    if t.1 is Ok { access_loop(n, t.0, t.0, 0, p, k, off, size, len); }
}
/// after a successful access every node of the tree has made exactly its transition at exactly the accessed bytes
pub proof fn access_every_node(n: Node, p: Option<List<int>>, k: AccessKind, off: Size, size: Size, len: int, q: Seq<int>)
    requires tree_wf(n, len), 0 <= off.raw, 0 <= size.raw, off.raw + size.raw <= len, Node__access(n, p, k, off, size).1 is Ok, valid_path(n, q)
    ensures valid_path(Node__access(n, p, k, off, size).0, q), touched(node_at(n, q), node_at(Node__access(n, p, k, off, size).0, q), rel_of(p, q), k, off, size)
    decreases q.len()
{
    access_step(n, p, k, off, size, len);
    if q.len() > 0 {
        assert(tree_wf(n.children.s[q[0]], len));
        access_every_node(n.children.s[q[0]], subpath(p, q[0]), k, off, size, len, q.drop_first());
    } else { assert(q =~= Seq::<int>::empty()); }
}
/// it is undefined behaviour only if some node of the tree refuses it
pub proof fn access_ub_only_if_refused(n: Node, p: Option<List<int>>, k: AccessKind, off: Size, size: Size, len: int)
    requires tree_wf(n, len), 0 <= off.raw, 0 <= size.raw, off.raw + size.raw <= len, Node__access(n, p, k, off, size).1 is Err
    ensures is_ub(Node__access(n, p, k, off, size).1), exists|q: Seq<int>| valid_path(n, q) && #[trigger] refuses(node_at(n, q), rel_of(p, q), k, off, size)
    decreases n
{
    access_ok(n, p, k, off, size, len);
    access_step(n, p, k, off, size, len);
    let e = Seq::<int>::empty();
    if refuses(n, rel_of(p, e), k, off, size) {
        assert(valid_path(n, e) && refuses(node_at(n, e), rel_of(p, e), k, off, size));
    } else {
        let j = choose|j: int| 0 <= j < n.children.s.len() && Node__access(#[trigger] n.children.s[j], subpath(p, j), k, off, size).1 is Err;
        assert(tree_wf(n.children.s[j], len));
        access_ub_only_if_refused(n.children.s[j], subpath(p, j), k, off, size, len);
        let q = choose|q: Seq<int>| valid_path(n.children.s[j], q) && #[trigger] refuses(node_at(n.children.s[j], q), rel_of(subpath(p, j), q), k, off, size);
        let q2 = seq![j] + q;
        assert(q2.drop_first() =~= q);
        assert(valid_path(n, q2) && refuses(node_at(n, q2), rel_of(p, q2), k, off, size));
    }
}
/// the tree keeps its shape
pub proof fn access_keeps_wf(n: Node, p: Option<List<int>>, k: AccessKind, off: Size, size: Size, len: int)
    requires tree_wf(n, len), 0 <= off.raw, 0 <= size.raw, off.raw + size.raw <= len, Node__access(n, p, k, off, size).1 is Ok
    ensures tree_wf(Node__access(n, p, k, off, size).0, len)
    decreases n
{
    access_step(n, p, k, off, size, len);
    let m = Node__access(n, p, k, off, size).0;
    assert forall|j: int| 0 <= j < m.children.s.len() implies tree_wf(#[trigger] m.children.s[j], len) by {
        assert(tree_wf(n.children.s[j], len));
        access_keeps_wf(n.children.s[j], subpath(p, j), k, off, size, len);
    }
}

// ------------------------------------------------------------------ finding and adding nodes
pub open spec fn replace_at(n: Node, q: Seq<int>, x: Node) -> Node
    decreases q.len()
{
    if q.len() == 0 { x } else { Node { children: List { s: n.children.s.update(q[0], replace_at(n.children.s[q[0]], q.drop_first(), x)) }, ..n } }
}
pub proof fn access_node<O>(n: Node, q: List<int>, f: spec_fn(Node) -> (Node, O), f_ok: spec_fn(Node) -> bool)
    requires valid_path(n, q.s), f_ok(node_at(n, q.s))
    ensures Node__access_node_ok(n, q, f, f_ok), Node__access_node(n, q, f) == (replace_at(n, q.s, f(node_at(n, q.s)).0), f(node_at(n, q.s)).1)
    decreases q.s.len()
{
    Node__access_node__def(n, q, f);
    Node__access_node_ok__def(n, q, f, f_ok);
    if q.s.len() > 0 { access_node(n.children.s[q.s[0]], List { s: q.s.drop_first() }, f, f_ok); }
}
/// a new reference becomes the last child of the one it was derived from
pub proof fn add_node(n: Node, q: List<int>, c: Node)
    requires valid_path(n, q.s)
    ensures Node__add_node_ok(n, q, c), ({
        let (m, r) = Node__add_node(n, q, c);
        let par = node_at(n, q.s);
        r.s == q.s.push(par.children.s.len() as int) && m == replace_at(n, q.s, Node { children: List { s: par.children.s.push(c) }, ..par })
    })
{
    assert forall|f: spec_fn(Node) -> (Node, int)| #[trigger] Node__access_node::<int>(n, q, f) == (replace_at(n, q.s, f(node_at(n, q.s)).0), f(node_at(n, q.s)).1) by { access_node(n, q, f, |x: Node| true); }
    assert forall|f: spec_fn(Node) -> (Node, int), g: spec_fn(Node) -> bool| g(node_at(n, q.s)) implies #[trigger] Node__access_node_ok::<int>(n, q, f, g) by { access_node(n, q, f, g); }
}

// ------------------------------------------------------------------ protectors
pub open spec fn blocks(n: Node) -> bool {
    n.protected == Protected::Strong && exists|o: int| 0 <= o < n.permissions.s.len() && next(#[trigger] n.permissions.s[o], AccessKind::Write, NodeRelation::Foreign) is None
}
pub proof fn own_protector(n: Node)
    ensures List__any(n.permissions, |st: Permission| { Permission__prevents_deallocation(st) }) == (exists|o: int| 0 <= o < n.permissions.s.len() && next(#[trigger] n.permissions.s[o], AccessKind::Write, NodeRelation::Foreign) is None)
{
    let l = n.permissions;
    let f = |st: Permission| { Permission__prevents_deallocation(st) };
    assert forall|p: Permission| f(p) == (next(p, AccessKind::Write, NodeRelation::Foreign) is None) by { prevents_deallocation(p); }
    if List__any(l, f) {
        let o = choose|o: int| 0 <= o < l.s.len() && f(#[trigger] l.s[o]);
        assert(next(l.s[o], AccessKind::Write, NodeRelation::Foreign) is None);
    }
    if exists|o: int| 0 <= o < l.s.len() && next(#[trigger] l.s[o], AccessKind::Write, NodeRelation::Foreign) is None {
        let o = choose|o: int| 0 <= o < l.s.len() && next(#[trigger] l.s[o], AccessKind::Write, NodeRelation::Foreign) is None;
        assert(f(l.s[o]));
    }
}
pub proof fn strong_loop(n: Node, i: int)
    requires 0 <= i <= n.children.s.len()
    ensures Node__contains_strong_protector_preventing_deallocation__loop1(n.children, i, false)
        == (exists|j: int, q: Seq<int>| i <= j < n.children.s.len() && valid_path(n.children.s[j], q) && blocks(#[trigger] node_at(n.children.s[j], q)))
    decreases n, 0int, n.children.s.len() - i
{
    if i < n.children.s.len() {
        let c = n.children.s[i];
        strong_protector(c);
        strong_loop(n, i + 1);
        if Node__contains_strong_protector_preventing_deallocation(c) {
            let q = choose|q: Seq<int>| valid_path(c, q) && blocks(#[trigger] node_at(c, q));
            assert(valid_path(n.children.s[i], q) && blocks(node_at(n.children.s[i], q)));
        }
    }
}
/// deallocation is blocked exactly if some strongly protected node was used somewhere (and is not interior mutable there)
pub proof fn strong_protector(n: Node)
    ensures Node__contains_strong_protector_preventing_deallocation(n) == (exists|q: Seq<int>| valid_path(n, q) && blocks(#[trigger] node_at(n, q)))
    decreases n, 1int, 0int
{
    own_protector(n);
    strong_loop(n, 0);
    let e = Seq::<int>::empty();
    if blocks(n) { assert(valid_path(n, e) && blocks(node_at(n, e))); }
    if exists|j: int, q: Seq<int>| 0 <= j < n.children.s.len() && valid_path(n.children.s[j], q) && blocks(#[trigger] node_at(n.children.s[j], q)) {
        let (j, q) = choose|j: int, q: Seq<int>| 0 <= j < n.children.s.len() && valid_path(n.children.s[j], q) && blocks(#[trigger] node_at(n.children.s[j], q));
        let q2 = seq![j] + q;
        assert(q2.drop_first() =~= q);
        assert(valid_path(n, q2) && blocks(node_at(n, q2)));
    }
    if exists|q: Seq<int>| valid_path(n, q) && blocks(#[trigger] node_at(n, q)) {
        let q = choose|q: Seq<int>| valid_path(n, q) && blocks(#[trigger] node_at(n, q));
        if q.len() > 0 { assert(valid_path(n.children.s[q[0]], q.drop_first()) && blocks(node_at(n.children.s[q[0]], q.drop_first()))); }
    }
}

// ------------------------------------------------------------------ what a reborrow sets up
pub open spec fn shared(t: PtrType) -> bool { t is Ref && t->mutbl == Mutability::Immutable }
/// no retag for raw and function pointers, nor for mutable references to data that must not move
pub open spec fn retagged(t: PtrType) -> bool { t is Box || (t is Ref && (shared(t) || t->Ref_pointee.unpin)) }
pub open spec fn perm_for(t: PtrType, prot: bool, in_cell: bool) -> Permission {
    if shared(t) {
        if in_cell { if prot { Permission::Prot(PermissionProt::Cell) } else { Permission::Unprot(PermissionUnprot::Cell) } }
        else if prot { Permission::Prot(PermissionProt::Frozen { had_local_read: false }) } else { Permission::Unprot(PermissionUnprot::Frozen) }
    } else if prot { Permission::Prot(PermissionProt::Reserved { had_local_read: false, had_foreign_read: false }) }
    else if in_cell { Permission::Unprot(PermissionUnprot::ReservedIm) } else { Permission::Unprot(PermissionUnprot::Reserved) }
}
pub proof fn reborrow_settings(ptr: Pointer<(AllocId, List<int>)>, t: PtrType, fn_entry: bool, vt: spec_fn(ThinPointer<(AllocId, List<int>)>) -> VTable)
    ensures ({
        let r = ReborrowSettings__new(ptr, t, fn_entry, vt);
        if !retagged(t) { r is None } else {
            let info = PtrType__safe_pointee(t)->0;
            let mask = UnsafeCellStrategy__freeze_mask(info.unsafe_cells, info.layout, ptr.metadata, vt);
            let s = r->0;
            &&& r is Some && PtrType__safe_pointee(t) is Some
            &&& s.protected == if !fn_entry { Protected::No } else if t is Box { Protected::Weak } else { Protected::Strong }
            &&& s.outside == perm_for(t, fn_entry, !info.freeze)
            &&& s.inside.s.len() == mask.s.len()
            &&& (forall|o: int| 0 <= o < mask.s.len() ==> #[trigger] s.inside.s[o] == perm_for(t, fn_entry, !mask.s[o]))
        }
    })
{ }

// ------------------------------------------------------------------ the end of a protector
pub open spec fn end_next(p: Permission, a: Option<AccessKind>, rel: NodeRelation) -> Option<Permission> {
    match a { Some(k) => next(p, k, rel), None => Some(p) }
}
pub open spec fn end_touched(n: Node, m: Node, rel: NodeRelation, acc: List<Option<AccessKind>>) -> bool {
    &&& m.protected == n.protected && m.permissions.s.len() == n.permissions.s.len()
    &&& forall|o: int| 0 <= o < n.permissions.s.len() ==> #[trigger] m.permissions.s[o] == end_next(n.permissions.s[o], acc.s[o], rel)->0
    &&& forall|o: int| 0 <= o < n.permissions.s.len() ==> end_next(#[trigger] n.permissions.s[o], acc.s[o], rel) is Some
}
pub open spec fn end_partial(n: Node, m: Node, i: int, rel: NodeRelation, acc: List<Option<AccessKind>>) -> bool {
    &&& m.protected == n.protected && m.children == n.children && m.permissions.s.len() == n.permissions.s.len()
    &&& forall|o: int| 0 <= o < n.permissions.s.len() ==> #[trigger] m.permissions.s[o] == if o < i { end_next(n.permissions.s[o], acc.s[o], rel)->0 } else { n.permissions.s[o] }
    &&& forall|o: int| 0 <= o < i ==> end_next(#[trigger] n.permissions.s[o], acc.s[o], rel) is Some
}
pub proof fn release_loop(n: Node, m: Node, i: int, rel: NodeRelation, acc: List<Option<AccessKind>>)
    requires 0 <= i <= acc.s.len(), acc.s.len() == n.permissions.s.len(), end_partial(n, m, i, rel, acc)
    ensures Node__release_protector__loop1_ok(List__enumerate(acc), i, rel, m), ({
        match Node__release_protector__loop1(List__enumerate(acc), i, rel, m) {
            Flow::Cont(x) => end_partial(n, x, acc.s.len() as int, rel, acc),
            Flow::Exit(x) => is_ub(x.1) && (exists|o: int| i <= o < acc.s.len() && end_next(#[trigger] n.permissions.s[o], acc.s[o], rel) is None),
        }
    })
    decreases acc.s.len() - i
{
    let l = List__enumerate(acc);
    Node__release_protector__loop1__def(l, i, rel, m);
    Node__release_protector__loop1_ok__def(l, i, rel, m);
    if i < acc.s.len() {
        assert(l.s[i] == (i, acc.s[i]));
        assert(m.permissions.s[i] == n.permissions.s[i]);
        match acc.s[i] {
            Some(k) => {
                permission_transition(m.permissions.s[i], k, rel);
                if next(m.permissions.s[i], k, rel) is Some {
                    let m2 = Node { permissions: List { s: m.permissions.s.update(i, next(m.permissions.s[i], k, rel)->0) }, ..m };
                    release_loop(n, m2, i + 1, rel, acc);
                } else { assert(end_next(n.permissions.s[i], acc.s[i], rel) is None); }
            }
            None => { release_loop(n, m, i + 1, rel, acc); }
        }
    }
}
pub open spec fn released(n: Node, m: Node, i: int, p: Option<List<int>>, acc: List<Option<AccessKind>>) -> bool {
    &&& m.protected == n.protected && m.permissions == n.permissions && m.children.s.len() == n.children.s.len()
    &&& forall|j: int| 0 <= j < n.children.s.len() ==> #[trigger] m.children.s[j] == if j < i { Node__release_protector(n.children.s[j], subpath(p, j), acc).0 } else { n.children.s[j] }
}
pub proof fn release_children(n: Node, b: Node, m: Node, i: int, p: Option<List<int>>, acc: List<Option<AccessKind>>)
    requires tree_wf(n, acc.s.len() as int), b.children == n.children, 0 <= i <= n.children.s.len(), released(b, m, i, p, acc)
    ensures Node__release_protector__loop2_ok(n.children.s.len() as int, i, p, acc, m), ({
        let end = n.children.s.len() as int;
        match Node__release_protector__loop2(end, i, p, acc, m) {
            Flow::Cont(x) => released(b, x, end, p, acc) && (forall|j: int| i <= j < end ==> Node__release_protector(#[trigger] n.children.s[j], subpath(p, j), acc).1 is Ok),
            Flow::Exit(x) => is_ub(x.1),
        }
    })
    decreases n, 0int, n.children.s.len() - i
{
    let end = n.children.s.len() as int;
    Node__release_protector__loop2__def(end, i, p, acc, m);
    Node__release_protector__loop2_ok__def(end, i, p, acc, m);
    if i < end {
        let c = n.children.s[i];
        assert(tree_wf(c, acc.s.len() as int));
        assert(m.children.s[i] == c);
        release_ok(c, subpath(p, i), acc);
        let x = Node__release_protector(c, subpath(p, i), acc);
        let m2 = Node { children: List { s: m.children.s.update(i, x.0) }, ..m };
        if x.1 is Ok { release_children(n, b, m2, i + 1, p, acc); }
    }
}
pub open spec fn at_target(p: Option<List<int>>) -> bool { p is Some && (p->0).s.len() == 0 }
pub proof fn release_ok(n: Node, p: Option<List<int>>, acc: List<Option<AccessKind>>)
    requires tree_wf(n, acc.s.len() as int)
    ensures Node__release_protector_ok(n, p, acc), ({
        let (m, r) = Node__release_protector(n, p, acc);
        let rel = rel_of(p, Seq::<int>::empty());
        &&& (r is Err ==> is_ub(r))
        &&& (at_target(p) ==> r is Ok && m == Node { protected: Protected::No, ..n })
        &&& (!at_target(p) && r is Ok ==> end_touched(n, m, rel, acc) && m.children.s.len() == n.children.s.len()
            && (forall|j: int| 0 <= j < n.children.s.len() ==> #[trigger] m.children.s[j] == Node__release_protector(n.children.s[j], subpath(p, j), acc).0)
            && (forall|j: int| 0 <= j < n.children.s.len() ==> Node__release_protector(#[trigger] n.children.s[j], subpath(p, j), acc).1 is Ok))
    })
    decreases n, 1int, 0int
{
    let rel = if p is Some { NodeRelation::Local } else { NodeRelation::Foreign };
    Node__release_protector__def(n, p, acc);
    Node__release_protector_ok__def(n, p, acc);
    if !at_target(p) {
        release_loop(n, n, 0, rel, acc);
        match Node__release_protector__loop1(List__enumerate(acc), 0, rel, n) {
            Flow::Cont(b) => { release_children(n, b, b, 0, p, acc); }
            _ => { }
        }
    }
}
/// q is the protected node or one of its descendants
pub open spec fn beneath(p: Option<List<int>>, q: Seq<int>) -> bool
    decreases q.len()
{
    at_target(p) || (q.len() > 0 && beneath(subpath(p, q[0]), q.drop_first()))
}
/// after a protector ended: nodes derived from the protected one are untouched; every other node has seen the accesses the protector stood for
pub proof fn release_every_node(n: Node, p: Option<List<int>>, acc: List<Option<AccessKind>>, q: Seq<int>)
    requires tree_wf(n, acc.s.len() as int), Node__release_protector(n, p, acc).1 is Ok, valid_path(n, q)
    ensures valid_path(Node__release_protector(n, p, acc).0, q), ({
        let x = node_at(n, q); let y = node_at(Node__release_protector(n, p, acc).0, q);
        if beneath(p, q) { y.permissions == x.permissions } else { end_touched(x, y, rel_of(p, q), acc) }
    })
    decreases q.len()
{
    release_ok(n, p, acc);
    if q.len() > 0 {
        assert(tree_wf(n.children.s[q[0]], acc.s.len() as int));
        if !at_target(p) { release_every_node(n.children.s[q[0]], subpath(p, q[0]), acc, q.drop_first()); }
    } else { assert(q =~= Seq::<int>::empty()); }
}

// ------------------------------------------------------------------ where the UnsafeCells are
pub open spec fn cells_wf(c: Seq<(Size, Size)>, size: int) -> bool {
    &&& forall|i: int| 0 <= i < c.len() ==> 0 <= (#[trigger] c[i]).0.raw && 0 <= c[i].1.raw && c[i].0.raw + c[i].1.raw <= size
    &&& forall|i: int| 1 <= i < c.len() ==> c[i - 1].0.raw + c[i - 1].1.raw <= (#[trigger] c[i]).0.raw
    &&& 0 <= size < 0x1_0000_0000_0000_0000
}
pub open spec fn in_cell(c: Seq<(Size, Size)>, o: int) -> bool { exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).0.raw <= o < c[i].0.raw + c[i].1.raw }
pub open spec fn cells_zip(c: List<(Size, Size)>, size: Size) -> List<((Size, Size), (Size, Size))> {
    List__zip(List__chain(list_once((Size { raw: 0 }, Size { raw: 0 })), c), List__chain(c, list_once((size, Size { raw: 0 }))))
}
/// where the bytes before pair i end
pub open spec fn cell_start(c: Seq<(Size, Size)>, i: int, size: int) -> int { if i == 0 { 0 } else if i <= c.len() { c[i - 1].0.raw } else { size } }
pub proof fn cells_ordered(c: Seq<(Size, Size)>, size: int, i: int, j: int)
    requires cells_wf(c, size), 0 <= i < j < c.len()
    ensures c[i].0.raw + c[i].1.raw <= c[j].0.raw
    decreases j - i
{ assert(c[j - 1].0.raw + c[j - 1].1.raw <= c[j].0.raw); assert(c[j - 1].1.raw >= 0); if i < j - 1 { cells_ordered(c, size, i, j - 1); } }
pub proof fn mask_loop(c: List<(Size, Size)>, size: Size, i: int, mask: List<bool>)
    requires cells_wf(c.s, size.raw), 0 <= i <= c.s.len() + 1, mask.s.len() == cell_start(c.s, i, size.raw),
        forall|o: int| 0 <= o < mask.s.len() ==> #[trigger] mask.s[o] == !in_cell(c.s, o)
    ensures cells_to_freeze_mask__loop1_ok(cells_zip(c, size), i, mask), ({
        let r = cells_to_freeze_mask__loop1(cells_zip(c, size), i, mask);
        r.s.len() == size.raw && forall|o: int| 0 <= o < size.raw ==> #[trigger] r.s[o] == !in_cell(c.s, o)
    })
    decreases c.s.len() + 1 - i
{
    let z = cells_zip(c, size);
    if i <= c.s.len() {
        let cur = if i == 0 { (Size { raw: 0 }, Size { raw: 0 }) } else { c.s[i - 1] };
        let nx = if i < c.s.len() { c.s[i] } else { (size, Size { raw: 0 }) };
        assert(z.s[i] == (cur, nx));
        let gap = nx.0.raw - (cur.0.raw + cur.1.raw);
        if 0 < i && i < c.s.len() { assert(c.s[i - 1].0.raw + c.s[i - 1].1.raw <= c.s[i].0.raw); }
        assert(gap >= 0);
        let m1 = List__append(mask, List__from_elem(false, cur.1.raw));
        let m2 = List__append(m1, List__from_elem(true, gap));
        let n0 = mask.s.len() as int;
        assert(n0 == cur.0.raw);
        assert forall|o: int| 0 <= o < m2.s.len() implies #[trigger] m2.s[o] == !in_cell(c.s, o) by {
            if o >= n0 && o < n0 + cur.1.raw { assert(c.s[i - 1].0.raw <= o < c.s[i - 1].0.raw + c.s[i - 1].1.raw); }
            if o >= n0 + cur.1.raw && in_cell(c.s, o) {
                let j = choose|j: int| 0 <= j < c.s.len() && (#[trigger] c.s[j]).0.raw <= o < c.s[j].0.raw + c.s[j].1.raw;
                if j < i - 1 { cells_ordered(c.s, size.raw, j, i - 1); }
                if j > i { cells_ordered(c.s, size.raw, i, j); }
            }
        }
        mask_loop(c, size, i + 1, m2);
    }
}
/// the mask says for every byte whether it lies outside all UnsafeCells
pub proof fn freeze_mask(c: List<(Size, Size)>, size: Size)
    requires cells_wf(c.s, size.raw)
    ensures cells_to_freeze_mask_ok(c, size), cells_to_freeze_mask(c, size).s.len() == size.raw,
        forall|o: int| 0 <= o < size.raw ==> #[trigger] cells_to_freeze_mask(c, size).s[o] == !in_cell(c.s, o)
{
    assert(cells_zip(c, size) == List__zip(List__chain(list_once((Size__ZERO(), Size__ZERO())), List__iter(c)), List__chain(List__iter(c), list_once((size, Size__ZERO())))));
    mask_loop(c, size, 0, List__new());
}

// ------------------------------------------------------------------ the memory
pub open spec fn root_of(m: TreeBorrowsMemory, p: ThinPointer<(AllocId, List<int>)>) -> Node { m.mem.allocations.s[aid(p)].extra.root }
pub open spec fn tag_of(p: ThinPointer<(AllocId, List<int>)>) -> Option<List<int>> { Some((p.provenance->0).1) }
pub open spec fn offset_of(m: TreeBorrowsMemory, p: ThinPointer<(AllocId, List<int>)>) -> Size { Size { raw: p.addr - m.mem.allocations.s[aid(p)].addr } }
/// a load or store of at least one byte succeeds only if the tree permits it, and leaves the tree as that access does
pub proof fn loads(m: TreeBorrowsMemory, p: ThinPointer<(AllocId, List<int>)>, len: Size, align: Align)
    requires prov_ok(m.mem, p), len.raw > 0, align.raw > 0
    ensures ({
        let (n, r) = TreeBorrowsMemory__Memory__load(m, p, len, align);
        let t = Node__access(root_of(m, p), tag_of(p), AccessKind::Read, offset_of(m, p), len);
        &&& (r is Ok ==> p.provenance is Some && t.1 is Ok && root_of(n, p) == t.0)
        &&& (r is Err ==> n == m)
        &&& (deref_ok(m.mem, p, len.raw) && t.1 is Err ==> r is Err)
        &&& (r is Ok ==> forall|i: int| 0 <= i < m.mem.allocations.s.len() && i != aid(p) ==> #[trigger] n.mem.allocations.s[i] == m.mem.allocations.s[i])
    })
{ }
pub proof fn stores(m: TreeBorrowsMemory, p: ThinPointer<(AllocId, List<int>)>, b: List<AbstractByte<(AllocId, List<int>)>>, align: Align)
    requires prov_ok(m.mem, p), b.s.len() > 0, align.raw > 0
    ensures ({
        let (n, r) = TreeBorrowsMemory__Memory__store(m, p, b, align);
        let t = Node__access(root_of(m, p), tag_of(p), AccessKind::Write, offset_of(m, p), Size { raw: b.s.len() as int });
        &&& (r is Ok ==> p.provenance is Some && t.1 is Ok && root_of(n, p) == t.0)
        &&& (r is Err ==> n == m)
        &&& (deref_ok(m.mem, p, b.s.len() as int) && t.1 is Err ==> r is Err)
        &&& (r is Ok ==> forall|i: int| 0 <= i < m.mem.allocations.s.len() && i != aid(p) ==> #[trigger] n.mem.allocations.s[i] == m.mem.allocations.s[i])
    })
{ }
/// releasing memory counts as writing all of it, and is refused while a strong protector is active anywhere
pub proof fn deallocates(m: TreeBorrowsMemory, p: ThinPointer<(AllocId, List<int>)>, kind: AllocationKind, size: Size, align: Align)
    requires prov_ok(m.mem, p), p.provenance is Some
    ensures ({
        let (n, r) = TreeBorrowsMemory__Memory__deallocate(m, p, kind, size, align);
        let t = Node__access(root_of(m, p), tag_of(p), AccessKind::Write, Size { raw: 0 }, size);
        r is Ok ==> t.1 is Ok && !Node__contains_strong_protector_preventing_deallocation(t.0)
    })
{ }
/// a fresh allocation has a single, unprotected, writable node covering all of it
pub proof fn allocates(m: TreeBorrowsMemory, kind: AllocationKind, size: Size, align: Align)
    requires size.raw >= 0
    ensures ({
        let (n, r) = TreeBorrowsMemory__Memory__allocate(m, kind, size, align);
        r is Ok ==> ({
            let p = r->Ok_0; let t = root_of(n, p);
            &&& p.provenance is Some && (p.provenance->0).1.s.len() == 0
            &&& tree_wf(t, size.raw) && t.children.s.len() == 0 && t.protected == Protected::No
            &&& forall|o: int| 0 <= o < size.raw ==> #[trigger] t.permissions.s[o] == Permission::Unprot(PermissionUnprot::Unique)
        })
    })
{ }
/// retagging never changes where a pointer points; the new tag is the last child of the old one, and only if the type asks for it
pub proof fn retag_keeps_address(m: TreeBorrowsMemory, fe: TreeBorrowsFrameExtra, ptr: Pointer<(AllocId, List<int>)>, t: PtrType, fn_entry: bool, vt: spec_fn(ThinPointer<(AllocId, List<int>)>) -> VTable)
    requires prov_ok(m.mem, ptr.thin_pointer), ptr.thin_pointer.provenance is Some ==> valid_path(root_of(m, ptr.thin_pointer), (ptr.thin_pointer.provenance->0).1.s)
    ensures ({
        let (n, fe2, r) = TreeBorrowsMemory__Memory__retag_ptr(m, fe, ptr, t, fn_entry, vt);
        let p = ptr.thin_pointer;
        &&& (!retagged(t) ==> r == Ok::<Pointer<(AllocId, List<int>)>, TerminationInfo>(ptr) && n == m && fe2 == fe)
        &&& (r is Ok ==> r->Ok_0.thin_pointer.addr == p.addr && r->Ok_0.metadata == ptr.metadata && (r->Ok_0.thin_pointer.provenance is Some <==> p.provenance is Some))
        &&& (r is Ok && retagged(t) && p.provenance is Some ==> ({
            let q = r->Ok_0.thin_pointer;
            let par = node_at(root_of(m, p), (p.provenance->0).1.s);
            &&& aid(q) == aid(p) && (q.provenance->0).1.s == (p.provenance->0).1.s.push(par.children.s.len() as int)
            &&& (fn_entry ==> fe2.protectors.s == fe.protectors.s.push(q.provenance->0))
            &&& (!fn_entry ==> fe2 == fe)
            &&& deref_ok(m.mem, p, (ReborrowSettings__new(ptr, t, fn_entry, vt)->0).inside.s.len() as int)
        }))
    })
{
    reborrow_settings(ptr, t, fn_entry, vt);
    if retagged(t) && ptr.thin_pointer.provenance is Some {
        let p = ptr.thin_pointer;
        let root = root_of(m, p);
        let q = (p.provenance->0).1;
        assert forall|c: Node| #![trigger Node__add_node(root, q, c)] Node__add_node(root, q, c).1.s == q.s.push(node_at(root, q.s).children.s.len() as int) by { add_node(root, q, c); }
        let st = ReborrowSettings__new(ptr, t, fn_entry, vt)->0;
        assert forall|off: Size, cp: List<int>, al: Allocation<List<int>, TreeBorrowsAllocationExtra>| true implies (#[trigger] TreeBorrowsMemory__reborrow__loop1(List__enumerate(st.inside), 0, off, cp, al) is Exit ==>
            TreeBorrowsMemory__reborrow__loop1(List__enumerate(st.inside), 0, off, cp, al)->Exit_0.1 is Err) by { reborrow_loop(List__enumerate(st.inside), 0, off, cp, al); }
    }
}
pub proof fn reborrow_loop(l: List<(int, Permission)>, i: int, off: Size, cp: List<int>, al: Allocation<List<int>, TreeBorrowsAllocationExtra>)
    ensures TreeBorrowsMemory__reborrow__loop1(l, i, off, cp, al) is Exit ==> TreeBorrowsMemory__reborrow__loop1(l, i, off, cp, al)->Exit_0.1 is Err
    decreases l.s.len() - i
{
    if 0 <= i && i < l.s.len() {
        let (idx, perm) = l.s[i];
        match Permission__init_access(perm) {
            Some(a) => {
                let x = Node__access(al.extra.root, Some(cp), a, size_add(off, Option__unwrap::<Size>(Size__from_bytes(idx))), Size__from_bytes_const(1int));
                if x.1 is Ok { reborrow_loop(l, i + 1, off, cp, Allocation { extra: TreeBorrowsAllocationExtra { root: x.0 }, ..al }); }
            }
            None => { reborrow_loop(l, i + 1, off, cp, al); }
        }
    }
}
/// a retag validates the place, and says whether that happens on entry to the function
pub proof fn mir_retag(f: FnCtxt, s: RsStatement)
    requires FnCtxt__translate_stmt_ok(f, s), s.kind is Retag
    ensures ({
        let r = FnCtxt__translate_stmt(f, s).1;
        r is Statement && r->Statement_0 is Validate && tr_rplace(f, s.kind->Retag_1, r->Statement_0->Validate_place) && r->Statement_0->fn_entry == (s.kind->Retag_0 is FnEntry)
    })
{
    reveal(FnCtxt__translate_stmt); reveal(FnCtxt__translate_stmt_ok);
    assert(tr_rplace(f, s.kind->Retag_1, FnCtxt__translate_place(f, s.kind->Retag_1, s.source_info.span).1));
}

// ---------------------------------------------------------------- the MIR translation of taking references
/// a reference is to the place named, with the mutability of the borrow and everything its type says about the pointee
pub proof fn mir_ref(f: FnCtxt, r: SmRegion, b: SmBorrowKind, p: SmPlace, sp: RsSpan)
    requires FnCtxt__translate_rvalue_smir_ok(f, SmRvalue::Ref(r, b, p), sp)
    ensures ({
        let e = FnCtxt__translate_rvalue_smir(f, SmRvalue::Ref(r, b, p), sp).1;
        &&& e is AddrOf && tr_place(f, p, *e->AddrOf_target)
        &&& e->AddrOf_ptr_ty is Ref && tr_info(f, SmPlace__ty(p, f.locals_smir)->0, e->AddrOf_ptr_ty->Ref_pointee)
        &&& e->AddrOf_ptr_ty->Ref_mutbl == if SmBorrowKind__to_mutable_lossy(b) is Mut { Mutability::Mutable } else { Mutability::Immutable }
    })
{
    reveal(FnCtxt__translate_rvalue_smir); reveal(FnCtxt__translate_rvalue_smir_ok);
}
/// taking a raw pointer is to the place named, and reborrows nothing
pub proof fn mir_raw(f: FnCtxt, k: SmRawPtrKind, p: SmPlace, sp: RsSpan)
    requires FnCtxt__translate_rvalue_smir_ok(f, SmRvalue::AddressOf(k, p), sp)
    ensures ({
        let e = FnCtxt__translate_rvalue_smir(f, SmRvalue::AddressOf(k, p), sp).1;
        &&& e is AddrOf && tr_place(f, p, *e->AddrOf_target) && e->AddrOf_ptr_ty is Raw
        &&& exists|cx: Ctxt, at: RsSpan| cx.tcx == f.cx.tcx && e->AddrOf_ptr_ty->Raw_meta_kind == LayoutStrategy__meta_kind((#[trigger] Ctxt__pointee_info_of_smir(cx, SmPlace__ty(p, f.locals_smir)->0, at)).1.layout)
    })
{
    reveal(FnCtxt__translate_rvalue_smir); reveal(FnCtxt__translate_rvalue_smir_ok);
}

// ---------------------------------------------------------------- what pointer types say about interior mutability
pub type Cell = (Size, Size);
pub open spec fn cells_of(c: Ctxt, t: RsTy, sp: RsSpan) -> Seq<Cell> { Ctxt__cells_in_sized_ty(c, t, sp).1.s }
/// the cells s of a part, at off
pub open spec fn moved(s: Seq<Cell>, off: int) -> Seq<Cell> { Seq::new(s.len(), |i: int| (Size { raw: s[i].0.raw + off }, s[i].1)) }
/// the cells of the first n fields, each moved to where its field is
pub open spec fn field_cells(c: Ctxt, l: RsTyAndLayout, sp: RsSpan, n: int) -> Seq<Cell>
    decreases n
{
    if n <= 0 { Seq::<Cell>::empty() } else { field_cells(c, l, sp, n - 1) + moved(cells_of(c, RsTyAndLayout__field(l, c, n - 1).ty, sp), RsSize__bytes(RsFieldsShape__offset(l.fields, n - 1))) }
}
/// gathering the cells changes nothing in the context
pub proof fn cells_pure(c: Ctxt, t: RsTy, sp: RsSpan)
    requires Ctxt__cells_in_sized_ty_ok(c, t, sp)
    ensures Ctxt__cells_in_sized_ty(c, t, sp).0 == c
{ }
pub proof fn mir_cells_loop(c: Ctxt, l: RsTyAndLayout, sp: RsSpan, n: int, i: int, acc: List<Cell>)
    requires Ctxt__cells_from_layout__loop1_ok(List__range(0, n), i, l, sp, c, acc), 0 <= i <= n, acc.s == field_cells(c, l, sp, i)
    ensures Ctxt__cells_from_layout__loop1(List__range(0, n), i, l, sp, c, acc).1.s == field_cells(c, l, sp, n)
    decreases n - i
{
    let it = List__range(0, n);
    Ctxt__cells_from_layout__loop1__def(it, i, l, sp, c, acc); Ctxt__cells_from_layout__loop1_ok__def(it, i, l, sp, c, acc);
    if i < n {
        let ft = RsTyAndLayout__field(l, c, i).ty;
        cells_pure(c, ft, sp);
        let off = mini__translate_size(RsFieldsShape__offset(l.fields, i));
        let v = List__map(List__into_iter::<Cell>(Ctxt__cells_in_sized_ty(c, ft, sp).1), |a: Cell| { let (start, len) = a; (size_add(start, off), len) });
        assert(v.s =~= moved(cells_of(c, ft, sp), off.raw));
        mir_cells_loop(c, l, sp, n, i + 1, List__append::<Cell>(acc, v));
    }
}
/// a type made of fields: the cells of each field, moved to where the field is
pub proof fn mir_cells_fields(c: Ctxt, l: RsTyAndLayout, sp: RsSpan)
    requires Ctxt__cells_from_layout_ok(c, l, sp), RsFieldsShape__count(l.fields) >= 0
    ensures Ctxt__cells_from_layout(c, l, sp).1.s == field_cells(c, l, sp, RsFieldsShape__count(l.fields))
{
    Ctxt__cells_from_layout__def(c, l, sp); Ctxt__cells_from_layout_ok__def(c, l, sp);
    mir_cells_loop(c, l, sp, RsFieldsShape__count(l.fields), 0, List__new::<Cell>());
}
/// the cells of n elements, each moved to where the element is
pub open spec fn elem_cells(s: Seq<Cell>, size: int, n: int) -> Seq<Cell>
    decreases n
{
    if n <= 0 { Seq::<Cell>::empty() } else { elem_cells(s, size, n - 1) + moved(s, size * (n - 1)) }
}
pub proof fn elem_cells_flat(s: Seq<Cell>, size: int, n: int, f: spec_fn(int) -> List<Cell>)
    requires n >= 0, forall|i: int| 0 <= i < n ==> (#[trigger] f(i)).s == moved(s, size * i)
    ensures flat_map_from(Seq::new(n as nat, |i: int| 0 + i), f) == elem_cells(s, size, n)
    decreases n
{
    let q = Seq::new(n as nat, |i: int| 0 + i);
    if n > 0 {
        assert(q.drop_last() =~= Seq::new((n - 1) as nat, |i: int| 0 + i));
        elem_cells_flat(s, size, n - 1, f);
        assert(f(n - 1).s == moved(s, size * (n - 1)));
    }
}
/// no cells in scalars and pointers; an UnsafeCell is one cell; a union or an enum that may change is one cell as a whole;
/// an array has the cells of each element
pub proof fn mir_cells(c: Ctxt, t: RsTy, sp: RsSpan)
    requires Ctxt__cells_in_sized_ty_ok(c, t, sp), RsFieldsShape__count(Ctxt__rs_layout_of(c, t).fields) >= 0
    ensures ({
        let k = RsTy__kind(t); let out = cells_of(c, t, sp); let l = Ctxt__rs_layout_of(c, t); let size = Size { raw: RsSize__bytes(l.size) };
        let none = Seq::<Cell>::empty(); let all = seq![(Size { raw: 0 }, size)];
        let fields = field_cells(c, l, sp, RsFieldsShape__count(l.fields));
        let a = k->Adt_0;
        &&& (k is Bool || k is Int || k is Uint || k is Char || k is RawPtr || k is Ref || k is FnPtr || k is FnDef || k is Never ==> out == none)
        &&& (k is Tuple || k is Closure ==> out == fields)
        &&& (k is Adt && RsAdtDef__is_box(a) ==> out == none)
        &&& (k is Adt && !RsAdtDef__is_box(a) && RsAdtDef__is_unsafe_cell(a) ==> out == all)
        &&& (k is Adt && !RsAdtDef__is_box(a) && !RsAdtDef__is_unsafe_cell(a) && RsAdtDef__is_struct(a) ==> out == fields)
        &&& (k is Adt && !RsAdtDef__is_box(a) && !RsAdtDef__is_unsafe_cell(a) && !RsAdtDef__is_struct(a) && (RsAdtDef__is_union(a) || RsAdtDef__is_enum(a)) ==>
            out == if RsTy__is_freeze(t, c.tcx, Ctxt__typing_env(c)) { none } else { all })
    })
{
    Ctxt__cells_in_sized_ty__def(c, t, sp); Ctxt__cells_in_sized_ty_ok__def(c, t, sp);
    let k = RsTy__kind(t); let l = Ctxt__rs_layout_of(c, t);
    assert(List__new::<Cell>().s =~= Seq::<Cell>::empty());
    assert(List__new::<Cell>().s.push((Size { raw: 0 }, Size { raw: RsSize__bytes(l.size) })) =~= seq![(Size { raw: 0 }, Size { raw: RsSize__bytes(l.size) })]);
    if k is Tuple || k is Closure || (k is Adt && !RsAdtDef__is_box(k->Adt_0) && !RsAdtDef__is_unsafe_cell(k->Adt_0) && RsAdtDef__is_struct(k->Adt_0)) { mir_cells_fields(c, l, sp); }
}
pub proof fn mir_cells_array(c: Ctxt, t: RsTy, sp: RsSpan)
    requires Ctxt__cells_in_sized_ty_ok(c, t, sp), RsTy__kind(t) is Array, RsConst__try_to_target_usize(RsTy__kind(t)->Array_1, c.tcx)->0 >= 0,
        RsSize__bytes(Ctxt__rs_layout_of(c, RsTy__kind(t)->Array_0).size) >= 0
    ensures ({
        let e = RsTy__kind(t)->Array_0; let n = RsConst__try_to_target_usize(RsTy__kind(t)->Array_1, c.tcx)->0; let s = cells_of(c, e, sp);
        cells_of(c, t, sp) == if s.len() == 0 { Seq::<Cell>::empty() } else { elem_cells(s, RsSize__bytes(Ctxt__rs_layout_of(c, e).size), n) }
    })
{
    Ctxt__cells_in_sized_ty__def(c, t, sp); Ctxt__cells_in_sized_ty_ok__def(c, t, sp);
    let e = RsTy__kind(t)->Array_0; let n = RsConst__try_to_target_usize(RsTy__kind(t)->Array_1, c.tcx)->0;
    let range = Ctxt__cells_in_sized_ty(c, e, sp).1; let s = range.s;
    cells_pure(c, e, sp);
    let size = Size { raw: RsSize__bytes(Ctxt__rs_layout_of(c, e).size) };
    assert(List__new::<Cell>().s =~= Seq::<Cell>::empty());
    if s.len() > 0 {
        assert(List__range(0, n).s =~= Seq::new(n as nat, |i: int| 0 + i));
        assert forall|i: int| 0 <= i < n implies #[trigger] (size.raw * i) >= 0 by { assert(size.raw * i >= 0) by (nonlinear_arith) requires size.raw >= 0, i >= 0; }
        assert forall|f: spec_fn(int) -> List<Cell>| (forall|i: int| 0 <= i < n ==> (#[trigger] f(i)).s =~= moved(s, size.raw * i)) implies (#[trigger] List__flat_map(List__range(0int, n), f)).s == elem_cells(s, size.raw, n) by {
            elem_cells_flat(s, size.raw, n, f);
        }
    }
}
/// a pointee: the cells of the type sorted, of an element for slices; frozen, pinned and inhabited as the compiler says
pub proof fn mir_pointee_cells(c: Ctxt, t: RsTy, sp: RsSpan)
    requires Ctxt__pointee_info_of_ok(c, t, sp)
    ensures ({
        let i = Ctxt__pointee_info_of(c, t, sp).1; let l = Ctxt__rs_layout_of(c, t).layout; let k = RsTy__kind(t);
        let sorted = |s: Seq<Cell>, out: List<Cell>| out.s.to_multiset() == s.to_multiset() && out.s.len() == s.len()
            && forall|x: int, y: int| 0 <= x <= y < out.s.len() ==> (#[trigger] out.s[x]).0.raw <= (#[trigger] out.s[y]).0.raw;
        &&& i.freeze == RsTy__is_freeze(t, c.tcx, Ctxt__typing_env(c))
        &&& i.unpin == RsTy__is_unpin(t, c.tcx, Ctxt__typing_env(c))
        &&& i.inhabited == !RsLayout__is_uninhabited(l)
        &&& (RsLayout__is_sized(l) ==> i.unsafe_cells is Sized && sorted(cells_of(c, t, sp), i.unsafe_cells->Sized_cells))
        &&& (!RsLayout__is_sized(l) && k is Slice ==> i.unsafe_cells is Slice && sorted(cells_of(c, k->Slice_0, sp), i.unsafe_cells->Slice_element_cells))
        &&& (!RsLayout__is_sized(l) && k is Str ==> i.unsafe_cells is Slice && i.unsafe_cells->Slice_element_cells.s.len() == 0)
        &&& (!RsLayout__is_sized(l) && k is Dynamic ==> i.unsafe_cells is TraitObject)
    })
{
    reveal(Ctxt__pointee_info_of); reveal(Ctxt__pointee_info_of_ok);
    broadcast use axiom_sort_perm, axiom_sort_sorted_size;
}
