%%file src/keystore.rs keystore
%%fn SignerCredentials::new
    ensures r.private_key == private_key && r.certificate == certificate && r.algorithm == algorithm && r.cert_chain == cert_chain //@C15
%%fn parse_private_key_pem
    ensures
        r matches Ok((k, a)) ==> key_fits(a, k) && pem_key(k, pem_data@, password), //@C15
        r matches Err(_) ==> !has_plain_key(pem_data@) || !utf8_ok(pem_data@), //@C15
        utf8_ok(pem_data@) ==> (password matches Some(p) ==> (r matches Err(_) ==> enc_key_in(256, pem_data@, p@) is None && enc_key_in(384, pem_data@, p@) is None)), //@C15
%%fn parse_private_key_der
    ensures
        r matches Ok((k, a)) ==> key_fits(a, k) && der_key(k, der_data@), //@C15
        r matches Err(_) ==> forall|c: int, f: KeyForm| (c == 256 || c == 384) && (f is Pkcs8Der || f is Sec1Der) ==> #[trigger] key_in(c, f, der_data@) is None, //@C15
%%fn load_private_key_der
    ensures
        r matches Ok((k, a)) ==> key_fits(a, k) && der_key(k, der_data@), //@C15
%%fn parse_certificate_pem
    ensures match r { Ok(v) => pem_in(pem_data@) == Some(PemM { tag: cert_tag(), data: v@ }), Err(_) => !(pem_in(pem_data@) matches Some(m) && m.tag == cert_tag()) } //@C15
%%fn parse_certificate_chain_pem
    ensures
        r matches Ok((c, ch)) ==> certs_pem(pem_data@) == seq![c@] + vv(ch@), //@C15
        certs_pem(pem_data@).len() == 0 ==> r is Err, //@C15
        certs_pem(pem_data@).len() > 0 ==> r is Ok, //@C15
%%loop 0
    invariant $s@ == $g.skip($i as int), $i <= $g.len(), vv($acc@) == tagged(crate::shim::pem::pms($g), $i as int) //@C15
    decreases $s@.len()
%%loop 1
    invariant $s@ == $g.skip($i as int), $i <= $g.len(), vv($acc@) == (if $i <= 1 { Seq::empty() } else { vv($g).subrange(1, $i as int) }) //@C15
    decreases $s@.len()
%%fn load_pem_from_bytes
    ensures
        r matches Ok(c) ==> key_fits(c.algorithm, c.private_key) && pem_key(c.private_key, key_pem@, password) && certs_pem(cert_pem@) == seq![c.certificate@] + vv(c.cert_chain@), //@C15
%%fn load_pem
    ensures
        r matches Ok(c) ==> key_fits(c.algorithm, c.private_key) && pem_key(c.private_key, file(key_path), password) && certs_pem(file(cert_path)) == seq![c.certificate@] + vv(c.cert_chain@), //@C15
%%fn load_p12
    ensures
        r matches Ok(c) ==> p12_ok(file(path)) && key_fits(c.algorithm, c.private_key) && (p12_keys(file(path), password@) matches Some(ks) && ks.len() > 0 && der_key(c.private_key, ks[0])) //@C15
            && p12_certs(file(path), password@) == Some(seq![c.certificate@] + vv(c.cert_chain@)), //@C15
%%fn load_p12_from_bytes
    ensures
        r matches Ok(c) ==> p12_ok(data@) && key_fits(c.algorithm, c.private_key) && (p12_keys(data@, password@) matches Some(ks) && ks.len() > 0 && der_key(c.private_key, ks[0])) //@C15
            && p12_certs(data@, password@) == Some(seq![c.certificate@] + vv(c.cert_chain@)), //@C15
%%loop 0
    invariant $i <= $s@.len(), vv($acc@) == (if $i <= 1 { Seq::empty() } else { vv($s@).subrange(1, $i as int) }) //@C15
    decreases $s@.len() - $i
%%fn load_certificate_der
    ensures match r { Ok(v) => v@ == der_data@ && v@.len() > 0, Err(_) => der_data@.len() == 0 } //@C15
%%spec
pub open spec fn file(name: &VStr) -> Seq<u8> { crate::shim::fs::bytes_at(crate::shim::path::path_named(name@)) }
pub use crate::signing_block::algorithms::key_fits;
pub open spec fn curve_of(k: PrivateKey) -> int { match k { PrivateKey::EcdsaP256(_) => 256, PrivateKey::EcdsaP384(_) => 384 } }
/// the key is one the text holds for this curve, in a plain form, or encrypted under the password given
pub open spec fn pem_key(k: PrivateKey, b: Seq<u8>, pw: Option<&VStr>) -> bool {
    key_in(curve_of(k), KeyForm::Pkcs8Pem, b) == Some(k.pubder()) || key_in(curve_of(k), KeyForm::Sec1Pem, b) == Some(k.pubder())
    || (pw matches Some(p) && enc_key_in(curve_of(k), b, p@) == Some(k.pubder()))
}
pub open spec fn der_key(k: PrivateKey, b: Seq<u8>) -> bool {
    key_in(curve_of(k), KeyForm::Pkcs8Der, b) == Some(k.pubder()) || key_in(curve_of(k), KeyForm::Sec1Der, b) == Some(k.pubder())
}
pub open spec fn has_plain_key(b: Seq<u8>) -> bool { exists|c: int, f: KeyForm| (c == 256 || c == 384) && (f is Pkcs8Pem || f is Sec1Pem) && #[trigger] key_in(c, f, b) is Some }
/// "CERTIFICATE"
pub open spec fn cert_tag() -> Seq<u8> { seq![67u8, 69, 82, 84, 73, 70, 73, 67, 65, 84, 69] }
pub open spec fn tagged(s: Seq<PemM>, n: int) -> Seq<Seq<u8>> decreases n
{ if n <= 0 { Seq::empty() } else if s[n - 1].tag == cert_tag() { tagged(s, n - 1).push(s[n - 1].data) } else { tagged(s, n - 1) } }
/// the certificates of a PEM text, in order
pub open spec fn certs_pem(b: Seq<u8>) -> Seq<Seq<u8>> {
    match pems_in(b) {
        Some(s) => tagged(s, s.len() as int),
        None => match pem_in(b) { Some(m) => if m.tag == cert_tag() { seq![m.data] } else { Seq::empty() }, None => Seq::empty() },
    }
}
