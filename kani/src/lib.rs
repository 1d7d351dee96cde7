//! Bytes as solver variables: Kani (CBMC) executes the library's compiled tag codec.
#[cfg(kani)]
mod h {
    use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
    use groth_sahai::statement::EquType;

    fn any_type() -> EquType {
        match kani::any::<u8>() & 3 {
            0 => EquType::PairingProduct,
            1 => EquType::MultiScalarG1,
            2 => EquType::MultiScalarG2,
            _ => EquType::Quadratic,
        }
    }
    fn any_c() -> Compress {
        if kani::any() { Compress::Yes } else { Compress::No }
    }
    fn any_v() -> Validate {
        if kani::any() { Validate::Yes } else { Validate::No }
    }

    /// encode then decode, any type, any pair of forms; one byte; following bytes untouched
    #[kani::proof]
    #[kani::unwind(6)]
    fn tag_round_trip() {
        let t = any_type();
        let (c, d, v) = (any_c(), any_c(), any_v());
        assert!(t.serialized_size(c) == 1, "announced size");
        let mut buf = [0u8; 4];
        let left = {
            let mut w = &mut buf[..];
            assert!(t.serialize_with_mode(&mut w, c).is_ok(), "encodes");
            w.len()
        };
        assert!(left == 3, "writes one byte");
        buf[1] = kani::any();
        let mut r = &buf[..];
        match EquType::deserialize_with_mode(&mut r, d, v) {
            Ok(u) => assert!(u == t, "decodes to the same type"),
            Err(e) => {
                core::mem::forget(e);
                assert!(false, "a tag is refused");
            }
        }
        assert!(r.len() == 3, "consumes one byte");
    }

    /// any byte: decodes only if it is the code of the type it decodes to
    #[kani::proof]
    #[kani::unwind(6)]
    fn only_tags_decode() {
        let b = [kani::any::<u8>(), kani::any::<u8>()];
        let (c, v) = (any_c(), any_v());
        let mut is_tag = false;
        let t = any_type();
        let mut buf = [0u8; 1];
        let mut w = &mut buf[..];
        if t.serialize_with_mode(&mut w, c).is_ok() && buf[0] == b[0] {
            is_tag = true;
        }
        match EquType::deserialize_with_mode(&b[..], c, v) {
            Ok(u) => {
                let mut buf = [0u8; 1];
                let mut w = &mut buf[..];
                assert!(u.serialize_with_mode(&mut w, c).is_ok(), "encodes");
                assert!(buf[0] == b[0], "a byte that is no tag is accepted");
            }
            Err(e) => {
                core::mem::forget(e);
                assert!(!is_tag, "a tag is refused");
            }
        }
    }

    #[kani::proof]
    #[kani::unwind(6)]
    fn empty_input() {
        let (c, v) = (any_c(), any_v());
        match EquType::deserialize_with_mode(&[][..], c, v) {
            Ok(_) => assert!(false, "empty input decodes"),
            Err(e) => core::mem::forget(e),
        }
    }
}
