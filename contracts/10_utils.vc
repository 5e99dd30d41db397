%%crate
pub use utils::MyReader;
%%file src/utils.rs utils
%%broadcast lemma_sub_sub
%%fn MyReader::new
    ensures r.wf(), r.rem() == data@, r.data@ == data@, r.pos == 0 //@C02
%%hint tail
assert(vx_ret.rem() =~= data@);
%%fn MyReader::len
    ensures r == self.data@.len() //@C02
%%fn MyReader::get_pos
    ensures r == self.pos //@C02
%%fn MyReader::to_vec
    ensures r@ == self.data@ //@C02
%%fn MyReader::get_to
    requires old(self).wf() //@C01
    ensures
        final(self).wf(), //@C01
        final(self).data@ == old(self).data@, //@C01
        match r {
            Ok(v) => len <= old(self).rem().len() && final(self).pos == old(self).pos + len
                && final(self).rem() == old(self).rem().skip(len as int)
                && v@ == old(self).rem().take(len as int),
            Err(e) => !has0(e) && !has1(e) && len > old(self).rem().len() && final(self).pos == old(self).pos,
        }, //@C02
%%fn MyReader::as_slice
    requires old(self).wf() //@C01
    ensures
        final(self).wf(), //@C01
        final(self).data@ == old(self).data@, //@C01
        match r {
            Ok(v) => end <= old(self).rem().len() && final(self).pos == old(self).pos + end
                && final(self).rem() == old(self).rem().skip(end as int)
                && v.wf() && v.pos == 0 && v.data@ == old(self).rem().take(end as int) && v.rem() == v.data@,
            Err(e) => !has0(e) && !has1(e) && end > old(self).rem().len() && final(self).pos == old(self).pos,
        }, //@C02
%%hint tail
assert(vx_ret matches Ok(v) ==> v.rem() =~= v.data@);
%%fn MyReader::read_size
    requires old(self).wf() //@C01
    ensures
        final(self).wf(), //@C01
        final(self).data@ == old(self).data@, //@C01
        match r {
            Ok(v) => 4 <= old(self).rem().len() && final(self).pos == old(self).pos + 4
                && final(self).rem() == old(self).rem().skip(4 as int)
                && v == un4(old(self).rem().take(4)),
            Err(e) => !has0(e) && !has1(e) && 4 > old(self).rem().len() && final(self).pos == old(self).pos,
        }, //@C02
%%fn MyReader::read_u32
    requires old(self).wf() //@C01
    ensures
        final(self).wf(), //@C01
        final(self).data@ == old(self).data@, //@C01
        match r {
            Ok(v) => 4 <= old(self).rem().len() && final(self).pos == old(self).pos + 4
                && final(self).rem() == old(self).rem().skip(4 as int)
                && v == un4(old(self).rem().take(4)),
            Err(e) => !has0(e) && !has1(e) && 4 > old(self).rem().len() && final(self).pos == old(self).pos,
        }, //@C02
%%fn MyReader::read_u16
    requires old(self).wf() //@C01
    ensures
        final(self).wf(), //@C01
        final(self).data@ == old(self).data@, //@C01
        match r {
            Ok(v) => 2 <= old(self).rem().len() && final(self).pos == old(self).pos + 2
                && final(self).rem() == old(self).rem().skip(2 as int)
                && v == un2(old(self).rem().take(2)),
            Err(e) => !has0(e) && !has1(e) && 2 > old(self).rem().len() && final(self).pos == old(self).pos,
        }, //@C02
%%fn MyReader::read_u64
    requires old(self).wf() //@C01
    ensures
        final(self).wf(), //@C01
        final(self).data@ == old(self).data@, //@C01
        match r {
            Ok(v) => 8 <= old(self).rem().len() && final(self).pos == old(self).pos + 8
                && final(self).rem() == old(self).rem().skip(8 as int)
                && v == un8(old(self).rem().take(8)),
            Err(e) => !has0(e) && !has1(e) && 8 > old(self).rem().len() && final(self).pos == old(self).pos,
        }, //@C02
%%fn MyReader::read_size_u64
    requires old(self).wf() //@C01
    ensures
        final(self).wf(), //@C01
        final(self).data@ == old(self).data@, //@C01
        match r {
            Ok(v) => 8 <= old(self).rem().len() && final(self).pos == old(self).pos + 8
                && final(self).rem() == old(self).rem().skip(8 as int)
                && v == un8(old(self).rem().take(8)),
            Err(e) => !has0(e) && !has1(e) && 8 > old(self).rem().len() && final(self).pos == old(self).pos,
        }, //@C02
%%fn create_fixed_buffer_8
    requires buf@.len() == 8 //@C01
    ensures r@ == buf@ //@C02
%%spec
impl MyReader {
    /// the cursor never passes the end of its data
    pub open spec fn wf(&self) -> bool { self.pos <= self.data@.len() && self.data@.len() <= 0x7fff_ffff_ffff_ffff }
    /// what is left to read
    pub open spec fn rem(&self) -> Seq<u8> { self.data@.skip(self.pos as int) }
}
