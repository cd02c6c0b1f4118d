class Hook:
    def on_assert(self, e, st, uid, fid, fn, bb, t): pass
    def on_switch(self, e, st, uid, fid, fn, bb, t, v): pass
    def on_call(self, e, st, c): pass
    def on_ret(self, e, st, c, v): return None
    def on_diverge(self, e, st, c): pass
    def on_unwrap(self, e, st, c): pass
    def on_index(self, e, st, c): pass
    def on_compare(self, e, st, c, a, b): pass
    def on_absorb(self, e, st, c, may, must): pass
    def on_draw(self, e, st, c): pass
    def on_source(self, e, st, c, name): pass
    def on_from_elem(self, e, st, c, v): pass
