%module m_wrap
%defaultuse g_path g_view g_cell

%fn INST::get
    requires ninv(inner(*self)), k.wf()
    ensures match lk(view(inner(*self)), k@) { Some(VH::Val(v)) => r is Some && r->Some_0@ == v, _ => r is None }
%end

%fn INST::insert
    requires ninv(inner(*old(self))), wfd(view(inner(*old(self))), 64), k.wf(), k.count <= 64, vh_ok(vh(v))
%mode A
        , !bl(view(inner(*old(self))), k@), v is Val
%anymode
    ensures
        upd(view(inner(*final(self))), view(inner(*old(self))), k@, vh(v)),
        wfd(view(inner(*final(self))), 64),
        ninv(inner(*final(self))),
        cell_ok(*final(self))
%mode B
        , !bl(view(inner(*old(self))), k@)
%anymode
%end

%fn INST::delete
    requires ninv(inner(*old(self))), wfd(view(inner(*old(self))), 64), k.wf(), k.count <= 64, cell_ok(*old(self))
%mode A
        , !bl(view(inner(*old(self))), k@)
%anymode
    ensures
        match r {
            Some(val) => lk(view(inner(*old(self))), k@) == Some(VH::Val(val@)) && del(view(inner(*final(self))), view(inner(*old(self))), k@),
            None => lk(view(inner(*old(self))), k@) is None && view(inner(*final(self))) == view(inner(*old(self))),
        },
        wfd(view(inner(*final(self))), 64),
        ninv(inner(*final(self))),
        cell_ok(*final(self))
%mode B
        , !bl(view(inner(*old(self))), k@)
%anymode
%end

%fn HashedPartialTrie::invalidate_hash
    ensures final(self).node == old(self).node, fresh(*final(self).hash)
%end
