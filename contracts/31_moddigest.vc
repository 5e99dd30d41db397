%%file src/file_formats/module/digest.rs file_formats::module::digest
%%broadcast lemma_vv_push
%%fn digest_chunk
    ensures r@ == chunk_digest(*sig, chunk@) //@C06
%%hint start
broadcast use lemma_empty_l;
%%fn digest_zip_contents;digest_central_directory
    ensures
        final(file).content() == old(file).content(), //@C06
        r matches Ok(v) ==> vv(v@) == cds(*sig, stream_upto(old(file).content(), start as int, size as int)), //@C06
%%hint beforeloop 0
broadcast use {lemma_cds_step, lemma_cds_done};
let ghost vx_all = vv(digestives@) + cds(*sig, reader.todo());
%%loop 0
    invariant vv(digestives@) + cds(*sig, reader.todo()) == vx_all, file.content() == old(file).content(), //@C06
    decreases reader.todo().len()
%%fn digest_end_of_central_directory
    ensures
        final(file).content() == old(file).content(), //@C06
        r matches Ok(v) ==> start + 20 <= old(file).content().len() && vv(v@) == cds(*sig, eocd_with(old(file).content().skip(start as int), central_directory_offset as u32)), //@C06
%%hint start
hide(cds);
%%hint beforeloop 0
assert(reader.todo() =~= eocd_with(old(file).content().skip(start as int), central_directory_offset as u32));
broadcast use {lemma_cds_step, lemma_cds_done};
let ghost vx_all = vv(digestives@) + cds(*sig, reader.todo());
%%loop 0
    invariant vv(digestives@) + cds(*sig, reader.todo()) == vx_all, file.content() == old(file).content(), //@C06
    decreases reader.todo().len()
%%fn digest_final_digest
    ensures r@ == top_digest(*sig, vv(chunks@)) //@C06
%%hint start
broadcast use lemma_empty_l;
%%fn digest_module
    requires offsets.start_content == 0, offsets.stop_content <= offsets.start_cd <= offsets.stop_cd <= offsets.stop_eocd, offsets.stop_cd == offsets.start_eocd, //@C01
        offsets.stop_cd <= old(module).content().len(),
    ensures
        final(module).content() == old(module).content(), //@C06
        r matches Ok(d) ==> d@ == module_digest(*algo, old(module).content(), offsets.stop_content as int, offsets.start_cd as int, offsets.stop_cd as int), //@C06
%%hint start
broadcast use lemma_vv_cat;
let ghost vx_c = old(module).content();
assert(stream_upto(vx_c, 0, offsets.stop_content as int) =~= vx_c.take(offsets.stop_content as int));
assert(stream_upto(vx_c, offsets.start_cd as int, offsets.stop_cd - offsets.start_cd) =~= vx_c.subrange(offsets.start_cd as int, offsets.stop_cd as int));
%%hint tail
assert(vv(Seq::<Vec<u8>>::empty()) =~= Seq::<Seq<u8>>::empty());
