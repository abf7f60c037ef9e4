//! C28, C29: X25519 and P-256 base-point multiplication against affine group laws.
use hacspec::prelude::*;
use hacspec_examples::{curve25519 as x, p256};
use num::{BigInt, One, Zero};
use std::sync::OnceLock;
use vh::refs::curves as rf;
use vh::*;

fn out<'a>(it: impl Iterator<Item = &'a U8>) -> String {
    hex(&it.map(|x| x.declassify()).collect::<Vec<u8>>())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dh {
    k: B,
    u: B,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Two {
    a: B,
    b: B,
}
fn le32(v: &BigInt) -> B {
    let mut b = v.to_bytes_le().1;
    b.resize(32, 0);
    b.truncate(32);
    B(b)
}
/// Field-boundary and small-order u-coordinates.
fn special_u() -> Vec<B> {
    let p = rf::p25519();
    let two = BigInt::one() << 255usize;
    let mut v: Vec<BigInt> = vec![];
    for d in 0..12i32 {
        v.push(BigInt::from(d));
        v.push(&p - d);
        v.push(&p + d);
        if d > 0 {
            v.push(&two - d);
        }
    }
    for s in [
        "325606250916557431795983626356110631294008115727848805560023387167927233504",
        "39382357235489614581723060781553021112529911719440698176882885853963445705823",
    ] {
        let o: BigInt = s.parse().unwrap();
        v.push(o.clone());
        v.push(&o + 1);
        v.push(&o - 1);
    }
    v.push(BigInt::from(1) << 254usize);
    v.push(BigInt::from(9));
    let mut out: Vec<B> = v.iter().map(le32).collect();
    let high: Vec<B> = out.iter().map(|b| { let mut c = b.clone(); c.0[31] |= 0x80; c }).collect();
    out.extend(high);
    out
}
/// 256-bit numbers of simple shape: one bit set or clear, all bits below or above one, runs of ones, limbs
/// that are empty, full or neither.
fn patterns(seed: u64) -> Vec<BigInt> {
    let one = BigInt::one;
    let top: BigInt = one() << 256usize;
    let mut v = vec![];
    for k in 0..256usize {
        let b: BigInt = one() << k;
        v.extend(vec![b.clone(), &b - 1, &top - &b, &top - 1 - &b]);
    }
    for l in &[5usize, 8, 16, 32, 64, 96, 128, 192] {
        for j in (0..=256 - l).step_by(*l.min(&24)) { v.push(((one() << *l) - 1) << j); }
    }
    let mut x = seed | 1;
    for i in 0..81usize {
        let limb = |k: u32, x: &mut u64| -> u64 {
            *x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            match i / 3usize.pow(k) % 3 { 0 => 0, 1 => u64::max_value(), _ => *x ^ *x >> 29 }
        };
        let n = (0..4u32).fold(BigInt::zero(), |n, k| (n << 64usize) + limb(k, &mut x));
        v.push(n);
    }
    for b in &[0x55u8, 0xaa, 0x0f, 0xf0, 0x80, 0x01, 0x7f, 0xfe] { v.push(BigInt::from_bytes_le(num::bigint::Sign::Plus, &[*b; 32])); }
    v
}
fn x25519(k: &[u8], u: &[u8]) -> Result<String, String> {
    let r = no_panic("scalarmult", || x::scalarmult(x::SerializedScalar::from_public_slice(k), x::SerializedPoint::from_public_slice(u)))?;
    Ok(out(r.iter()))
}
fn c28(ctx: &mut Ctx) {
    rf::selftest();
    ctx.rule("the u-coordinate is not of small order (the result is not zero)");
    let dh = |c: &Dh, r: &mut Rec| -> Res {
        let want = rf::x25519(&c.k, &c.u);
        r.nontrivial(want.iter().any(|b| *b != 0));
        r.class_if(want.iter().all(|b| *b == 0), "small-order");
        r.class_if(c.u[31] & 0x80 != 0, "u-top-bit-set");
        let um = { let mut u = c.u.0.clone(); u[31] &= 127; BigInt::from_bytes_le(num::bigint::Sign::Plus, &u) };
        r.class_if(um >= rf::p25519(), "u-not-reduced");
        r.class_if(rf::clamp(&c.k) != c.k.0, "scalar-needs-clamping");
        eq("x25519", x25519(&c.k, &c.u)?, hex(&want))
    };
    ctx.run("x25519", 300, 5_000, || {
        let sp = special_u();
        (bytes_n(32), prop_oneof![5 => bytes_n(32), 2 => prop::sample::select(sp)]).prop_map(|(k, u)| Dh { k, u })
    }, dh);
    // The shared secret is drawn (next to the ends of the field, or one set bit), the peer's point computed.
    ctx.run(
        "x25519-chosen-secret",
        120,
        2_000,
        || {
            let p = rf::p25519();
            let q = prop_oneof![
                2 => (0..400i32).prop_map(BigInt::from),
                2 => (1..400i32).prop_map(move |d| &p - d),
                2 => (0..255usize, -20..20i32).prop_map(|(k, d)| { let v: BigInt = (BigInt::one() << k) + d; v.max(BigInt::zero()) }),
                2 => (1..31usize, bytes_n(32)).prop_map(|(z, mut b)| { for i in 32 - z..32 { b.0[i] = 0; } BigInt::from_bytes_le(num::bigint::Sign::Plus, &b) }),
                1 => (1..31usize, bytes_n(32)).prop_map(|(z, mut b)| { for i in 0..z { b.0[i] = 0; } b.0[31] &= 63; BigInt::from_bytes_le(num::bigint::Sign::Plus, &b) }),
            ];
            (bytes_n(32), q).prop_filter_map("no point of prime order nearby", |(k, q)| {
                // the next value that belongs to a point of prime order, on the curve or its twist
                (0..40).find_map(|d| rf::x25519_divide(&k, &(&q + d))).map(|u| Dh { k, u: le32(&u) })
            })
        },
        |c: &Dh, r: &mut Rec| {
            dh(c, r)?;
            let w = rf::x25519(&c.k, &c.u);
            let zeros = w.iter().rev().take_while(|b| **b == 0).count();
            r.class_if(zeros > 0, "leading zero bytes in the secret");
            r.class_if(zeros > 16, "more than 16 leading zero bytes in the secret");
            r.class_if(w[0] == 0, "trailing zero byte in the secret");
            Ok(())
        },
    );
    let special = special_u();
    let specials: Vec<Dh> = special.into_iter().enumerate().map(|(i, u)| Dh { k: B((0..32).map(|j| (i * 41 + j * 97 + 13) as u8).collect()), u }).collect();
    // parallel: one shard per index through `run` over a finite list would repeat items; enumerate instead
    ctx.exhaust("x25519-special-points", specials.into_iter(), dh);
    // every value of the bytes that are clamped or masked, at both ends of scalar and point
    let fill = |i: usize, salt: usize| -> Vec<u8> { (0..32).map(|j| ((i * 7 + salt) * 59 + j * 83 + (i * j) % 31) as u8).collect() };
    let seed = ctx.seed as usize;
    let every: Vec<Dh> = (0..256)
        .map(|i| {
            let (mut k, mut u) = (fill(i, seed), fill(i + 300, seed));
            u[31] = i as u8;
            u[0] = (i * 5 + 2) as u8;
            k[0] = (i * 3 + 1) as u8;
            k[31] = (i * 7 + 3) as u8;
            Dh { k: B(k), u: B(u) }
        })
        .collect();
    ctx.exhaust("x25519-every-byte", every.into_iter(), dh);
    let shapes: Vec<Dh> = patterns(ctx.seed)
        .iter()
        .enumerate()
        .flat_map(|(i, v)| vec![Dh { k: le32(v), u: B(fill(i, seed + 1)) }, Dh { k: B(fill(i, seed + 2)), u: le32(v) }])
        .chain((0..256usize).map(|i| { let mut u = vec![0xff; 32]; u[0] = i as u8; u[31] = 0x7f; Dh { k: B(fill(i, seed + 3)), u: B(u) } }))
        .collect();
    ctx.exhaust("x25519-shapes", shapes.into_iter(), dh);
    ctx.run(
        "x25519-public-key",
        100,
        2_000,
        || bytes_n(32),
        |k: &B, r: &mut Rec| {
            r.nontrivial(true);
            let mut base = vec![0; 32];
            base[0] = 9;
            let p = no_panic("secret_to_public", || x::secret_to_public(x::SerializedScalar::from_public_slice(k)))?;
            eq("public key", out(p.iter()), hex(&rf::x25519(k, &base)))
        },
    );
    // both parties of a key exchange compute the same secret
    ctx.run(
        "x25519-agreement",
        50,
        1_000,
        || (bytes_n(32), bytes_n(32)).prop_map(|(a, b)| Two { a, b }),
        |c: &Two, r: &mut Rec| {
            r.nontrivial(c.a != c.b);
            let pk = |k: &B| -> Result<Vec<u8>, String> {
                let p = no_panic("secret_to_public", || x::secret_to_public(x::SerializedScalar::from_public_slice(k)))?;
                Ok(p.iter().map(|x| x.declassify()).collect())
            };
            let (pa, pb) = (pk(&c.a)?, pk(&c.b)?);
            eq("shared secret", x25519(&c.a, &pb)?, x25519(&c.b, &pa)?)
        },
    );
}

fn curve() -> &'static rf::P256 {
    static S: OnceLock<rf::P256> = OnceLock::new();
    S.get_or_init(rf::P256::new)
}
fn hex64(v: &BigInt) -> String {
    format!("{:0>64}", v.to_str_radix(16))
}
fn mul(k: &BigInt) -> Result<(BigInt, BigInt), String> {
    let s = hex64(k);
    let (px, py) = no_panic("point_mul", || p256::point_mul(p256::Scalar::from_hex(&s)))?;
    let b = |f: p256::FieldElement| -> BigInt {
        let v: Vec<u8> = f.to_byte_seq_le().iter().map(|x| x.declassify()).collect();
        BigInt::from_bytes_le(num::bigint::Sign::Plus, &v)
    };
    Ok((b(px), b(py)))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct K(String);
impl K {
    fn of(v: &BigInt) -> K {
        K(hex64(v))
    }
    fn big(&self) -> BigInt {
        BigInt::parse_bytes(self.0.as_bytes(), 16).unwrap()
    }
}
/// Scalars whose point has a coordinate with 12 to 20 equal bits at the top, at the bottom or in the
/// middle (found by search); the first ones are the most extreme of each kind.
const EXTREME: [&str; 120] = [
    "0249627a39b2b9e7157d3d1cc085e3826b4ae300fe3e64ddf15e45582314771f", // xhi
    "3f5e8702501fc7765d55a91cc0d6f23b5600f471557f9a71d32e03a532e6f0ae", // xhi
    "52bdbb80f8ecf5fc212e8aae090d2bbfb504bc59336c7a3693f7a4b5c2507398", // xlow
    "628ebcabe60c2ab07a9fdf8fa2f75802f525ded469157be07d905128d7173eba", // xlow
    "1ab232990cbc145ce14d000661ca89e9e3c94b4c021cc39ef3d371f1233f601c", // xlowf
    "3b7253f678544340b1f19d7b218da8b5cc0db4901e20a5dc5f66d68df810bb6f", // xlowf
    "31e1c0be7290aba423856e9b50eaf2cb49c91afb0fff419f6e3c8b734344e284", // xmid
    "64f4e30b612ec45bf6580ed72ff1819ef14e2f0713602e80abfc5e183bbea263", // xmid
    "628ebcabe60bf48e09891d07f3dd1d44133d202fe8378fdc4003db7a387a2de1", // xtop
    "2611001833af49d1e654735a768a06ecbd0189d1b2569b377533ebacd1c6f868", // xtop
    "5bdd364aa5f53e876e48aa351a0c82f643e85ad2bf93c7e7de886acd32e38e99", // yhi
    "0f6fb627498717033c6101526fbe83022ceee5a1f99493f35ef143c037e7f5e3", // yhi
    "5dd834e0511baa8f5d83559184a701aac205a5003638b3fe96631dad33eacc12", // ylow
    "02702c0e52ace596b0740baccb96a748ec9165ff911a74ef91e141e5289c47af", // ylow
    "5f2506b3ab90eac88caa0d07e0f60833b35e6f6403a02583e49028769264d320", // ylowf
    "41ed5932624c64cca89e32f003b20129f193a63d231131249a1e3706ee738706", // ylowf
    "2eab52d1db4a08105df37eb3fb562a60ee7631b9947feaabc09dbec41396767b", // ymid
    "1929fd10d08f24808274c2987390cf00f56cd7d95a231e3119cbc328187d0c94", // ymid
    "2fe68d7cb363370480c73db18cd4379464263a8e50a52d7c8ab65f1af11ca3c5", // ytop
    "2d854876dd3a701fda2e29788f20ec187a10172480d7d61e1439b5230119d1b4", // ytop
    "70a0e681bd3ce20910908151ca11bbcb1aa2b52c9c9096509030ed50cd4286e5", // xhi
    "6cfc1c91e14d0d432eba14d061124d0f0408efaf4c2a5f292180d1d9c0348708", // xhi
    "5f3f97f36840fe2a5cb61b5fd5736d8bcc2014a908423f89b40ed5cde698b2a4", // xhi
    "62d336b5e5fb8bf664d409d85308c006ad44de3a9942a3107ced6f9f30f1a801", // xhi
    "7aebc850c0a840598182a24443462f6ff16f2bb8eadce6b365bba20193a5d181", // xhi
    "4b1df4502fb3f7698fd1c02405755a7cae1c165b621bc90e6f052de0445b81a8", // xhi
    "64233ab5cfc1fd40edf752b6f540e2d07835b048e42065f45de4f699d4c11506", // xhi
    "339054353836db7bb3a2d75a9b5593d4fa02273968d93b2817f1959dc7c98b23", // xhi
    "5622df8f0815f657f14e9aa262fa641ffb9f3aaed85205407cfb2ab0d3baf2c9", // xhi
    "69e6b5dc83a83e7c73e1bfd8366db846ba57387086243795bae4845a90944c70", // xhi
    "2569b7daa554c2280b76f4193c7e19db28a0951e8f713adcc5c4a18368aff266", // xlow
    "2b639d0de88ed8cb22be468f5599e89433deec58e86921463a0785e4dcc45955", // xlow
    "24f6389e716811ae92d263c5756b285afcbf098d8c8fc011ac65f58945f7b286", // xlow
    "7d3f99af0c5f5b057ed0490948575fa7ab0ad9566d2ca6361260d98551219f2d", // xlow
    "22e09c2164352cca02bd10ddb2137e503a6e7f2329355b668304469a188f0c68", // xlow
    "24c12a03c941ab68d3d356f18539bace72257394b46b8f1c81104228f75e7356", // xlow
    "1445e3c0ae66285ab00a1b46561f5cd1229426df0322e1fe751c03033d88fcad", // xlow
    "42ede484d0720b732bcf2ce165830d5cdca03a5ea691c2a7bb204161148913b9", // xlow
    "1f10cddf95e981db06f7a00c31bd6cef41b99652d1c48ec1b8e5e8155de7e17d", // xlow
    "1d4ad9d68b9c5f75ccf8b2136635cc1f311f94c71de319ea7d143be4b1744f01", // xlow
    "7e8ba87eae6d7d5fbae7d27853e272d4e0af7c646f303142a76f290c410c1a11", // xlowf
    "461ffc78e8f7a3e45d2f3d098e16e6f00c10cd56c1fe54f1ddbb4018cc1206db", // xlowf
    "32eb05b746e44fbbab33659f07394f66e4ed3f666a6c3efc405510eeff7d555f", // xlowf
    "6f93dfb0ab239cd5dc36fa4442e90ea6e6cbdd6e44322acd52dbd79d0ca06c5a", // xlowf
    "5154335a0582ae26b608de4a289adf6df1de1a321effaaa9315f9f3b90308ada", // xlowf
    "3c3faefcb237c041f72e799362d96dd9cc0b8bac9595fd3c7b177ca02f07a245", // xlowf
    "30da58c77fde4e00f9912de19aac5530e856cc9713b742f0f7f7464fa3e3a411", // xlowf
    "04a478a516baf602dce7b549d540774b195f7ead90a6ca621b7feb997cc16f93", // xlowf
    "59a0d8b4ba04b50e2fab21d1b7d1acfe4fa37db179f47d61b2c9dd16f132ed59", // xlowf
    "47bf9d6c5530d67ab1274be63473ea65116ac980ab6f59af228a901ba063d29f", // xlowf
    "5279f17f39bb3d9e087c31faeeef056d2fcec94826f8b2b894204bd3e5cdc74e", // xmid
    "0bbc45ca03b98430497385d796f135b069fa1223b7a3a3167ca64ef8011140d5", // xmid
    "0da9c7093d02b7dff2c9cee2f50efa6fc431956683cabdc132c12f9b68ba2a66", // xmid
    "4dadf09f298b1767ae2e0e6b1fb64dddffdc1ee1bd632e3de799d2f977910222", // xmid
    "3e3dd687865c0e0b6edd7909b94a1b1f91877af90639edb3d13514ecae7a4483", // xmid
    "6b30e6ff2c668cf9779f6d3684c27e354d5d0728e11620d644fd8d485e5e27ec", // xmid
    "6f54e9222871dad807d57241fcfacc207f18367865d7f477188627276aa9245f", // xmid
    "70a0e681bd3caaa14eb2e6b14955d63435d3bf93defb93ee7a0fbe2f82a8fc43", // xmid
    "428ce9f45c7907394a5c5295d5a430e9bdd2615f175a0a3eb5b46f7636912f42", // xmid
    "2cf8ea7522bc2278068c10b45ea562556c3aefda266d92f5c8ebf60a3ff8bf04", // xmid
    "2f2e0571f11a290dd57c3971431090b0c7b03203730e908471b5428f70cc6af8", // xtop
    "125c8c6bf2d9a320d9b4fe318be3e6ff029e0c7329d07a2c66315968fdedc4d2", // xtop
    "2b5982bad6177b2f56643a875d17ed08f814deb153be3743b83f4c64e6041b20", // xtop
    "1e8f313292737c0310ad04abb5f237963d4ec89500174794d4469c2887467883", // xtop
    "41205535fec88d9ffa3d21fb686de6e65bff8994532af1f67041b15ee9e72d03", // xtop
    "546149bcc816eb496a457fb42f693aaff4ff0293f600b15afe904a9f56352eb3", // xtop
    "7b07a0a8f97165597bfb9cc4bcf3defbff0b663cf3592090a1dbcd4d742afe69", // xtop
    "542ebb160883b400b2f79dc214d66bb3137ec9a720ad0eb7c30bd24a14aac77d", // xtop
    "220632cc8fa74c3219e22b809e5db15b6c4820a981bcdba5d12a02c2bfe83f86", // xtop
    "5ea8959c498bc972c1abeb401fc17385b278587a8773893130f70f6c0dab601c", // xtop
    "5e5391d817a93a9b34d6832ec24ecd31b4e54c022933a1f2142ac22117d8e5f7", // yhi
    "6b322fd4e8a9781d3f14320208aa8e305211d6ce8832ed4f0e7ad9b3e30bccef", // yhi
    "56da86424b60b941cc4806645f98e3c9421b04fb4006175169302414298c4660", // yhi
    "6b5331a9d612ffdf9bc7061e0eaaedf82ef0abb4ec86bbbf8f441fcccf5879e8", // yhi
    "740b42b0867e912a84584af579fd6c0236062ff0194312720577738fbc865937", // yhi
    "7d522397f832da7a967f2e8d33a26920b571c3ed6aff8b66c2a5d370d4f4e5b8", // yhi
    "280597942f6df1c55b725411e2cd36eee077ca81a67ec573a0684912598ce579", // yhi
    "788d9ef23b54842943579b1e9f00b43ec1cd71d78a802380c3417a23dc0b68b0", // yhi
    "75f0cbedcf6818d3a7fb5885cc58e69760ab01dc93030427500bf59bd5e1b598", // yhi
    "566dc671582e413747fa8850710f72772925b2706e64f9104cc4cbb9ebc9d02a", // yhi
    "56da86424b605fb23cf6dc899ebc70e5f4a58bf6b4445031b3358f88f18b481c", // ylow
    "4e3862270c72b2f31ecc980d56bb1c743aa51a9d51d2a9db06d2855d94c1c9ac", // ylow
    "4b7bd4cab02909f1ea3e6305afbe644b0ea0d2274e368fc14527d216d7b5c895", // ylow
    "6b30e6ff2c65d1fc70b96e0b33d3a319006608c3b660afcd24b94cc4d669eb8b", // ylow
    "713d2f6c372af92ec26298c7620cd8189b3b4dbccddb17b17968f7d2e2e76869", // ylow
    "2913fe14b8381878d8406a29b59a3e93f49f9ca315dbfe571870e60dcce96155", // ylow
    "19b0294a54cdd8a31f4f643e66f07ca8fea82f636f2edb541ee92021116c36ad", // ylow
    "41ed5932624cb6e40acb8799b6b0ea7913451ddedbab093974729c9054c30f25", // ylow
    "068edc2497627819c64b058a0ab181335c118c1e6d335f63faaad3bb783ff674", // ylow
    "0f53546374f2c37da9521feccd07eb3ee6a70041ed44430d4054dc0f547a33de", // ylow
    "71f621ed8c059166d58fa56996be32127999f6c622d0d353a551e3fc84feb42e", // ylowf
    "1ac01c342ff896e53d1bd606864e6798eeca7bbbf04d519b659349ea93c48c05", // ylowf
    "0ce6b28c1e82cf5a9aa82b053b04b65a3c20f25eaa24200e7621ebec50735a65", // ylowf
    "72571fc9f1764e5be2c4592b94cb5ed2d342ee887cff4aa607be812ed0805a5d", // ylowf
    "081f9ab4b6009b4b04a80dc143e8a3dc33f50d2ab6972c3ee4b22416b88601b5", // ylowf
    "6aeb3b6c5d202a5c309fcb38d0d0fa94df5a9272a18aaa056b32d86d076e4984", // ylowf
    "3b10908df919dfd09e5fb98f06f924da43beb9220b8317afb25d4a4c3e931918", // ylowf
    "710d623de81ea12319c91df44f3a63afea8fe5f63a27336956c7d418c390c804", // ylowf
    "7c0f5e5cc12e2d47ea806c853820adab94d82fd91fcfe0188fb0963720821a97", // ylowf
    "7e14374ba02b77f8cd5472556107d25dd81234f5a87e0fcb10b9ab944a6b6978", // ylowf
    "46bef44eec87281bca725a5b34de6f54176240fa2e1fd053fbc0f772f0a25f55", // ymid
    "3b3ff4a9145b850cc0580f4e0253e45ad51ed6070d2e9096e5dc5f3a6a594219", // ymid
    "7b6a980c67e172837a4c00e414c5b7aab59f1ccfb4e85ed38d9ad93cd0743f5c", // ymid
    "6f6ce58754102f7bbecce3fac248b42144f9dba6d0e02a1f7f76a20c811e59e8", // ymid
    "65b48ae042a3418ef5c9acd538e5dcbbd872672d686e780e7eda2016a23e19b2", // ymid
    "6d13b83c6d981968fd90dba4f387b8395c02d94350011324658cc88983df2342", // ymid
    "59693207e85194a6e2746828b6575a7e2a2616fa8e363140a795675702bfe4b7", // ymid
    "5b26f2aa77620cff73408176a878b28ba12a4b2f99de764fd8565ab12dd08618", // ymid
    "11be4aa0299c8e7b565895202e47c4b7a7adc9fe1e02721caaa8f35fc83da4a7", // ymid
    "65b588d9b1d823f2825516310fc2c666d7b8af1ed6c74114d75881ce5f98fd43", // ymid
    "3c899553c4626119a24eeb638a624c26ef1e157828f83d419837076cb086801f", // ytop
    "425b3e755efefa68c74f69f9fc70e91060a189afb9f92ee407d57f7089870f6d", // ytop
    "7db4affd3a18f8ba501c27f58d6afc5c4bf85d593f5fc60832af0154887ca67a", // ytop
    "27b04bc9613021c01f0f1703f1782b8638e1c948ed8068ab6d64f35648bc6d39", // ytop
    "1cd8e8be155c0897f3375477f4bf50bc36fa74d9b3a7388b6ff13a3f0a38a31e", // ytop
    "2569b7daa5552d68ad0565e18c97a045b6ed19a42d676766fa002bb81c534c44", // ytop
    "5a48bfe09f21203d0f9d2cfd73dd6e9a2b6e604ddb3dc971024c7f6a775e7432", // ytop
    "66efad987d63d9c2d01cb1e98c64bda14d899b5008e71d2beea7e4356a3535cb", // ytop
    "217f4e543450d08ce4b3e78de434341f77d1952cd00fd49db8d0635ac1afc7a1", // ytop
    "172f4029588746f2ad9c48de9dc682820463b4624f11be5dc559b6f6c85edc6f", // ytop
];
fn scalar() -> impl Strategy<Value = K> {
    prop_oneof![
        6 => bytes_n(32).prop_map(|b| K(hex(&b))),
        1 => (0..40i32).prop_map(|d| K::of(&BigInt::from(d))),
        1 => (-40..40i32).prop_map(|d| K::of(&(&curve().n + d))),
        1 => (0..256usize, -2..3i32).prop_map(|(k, d)| { let v: BigInt = (BigInt::one() << k) + d; K::of(&if v < BigInt::zero() { BigInt::zero() } else { v }) }),
        1 => (1..40i32).prop_map(|d| K::of(&((BigInt::one() << 256usize) - d))),
        1 => (-20..20i32).prop_map(|d| K::of(&((&curve().n >> 1usize) + d))),
    ]
}
fn c29(ctx: &mut Ctx) {
    rf::selftest();
    ctx.rule("the scalar is not a multiple of the group order");
    let f = |k: &K, r: &mut Rec| -> Res {
        let kb = k.big();
        let want = curve().mul(&(&kb % &curve().n));
        r.nontrivial(want.is_some());
        r.class_if(kb >= curve().n, "scalar-above-order");
        r.class_if(want.is_none(), "point-at-infinity");
        r.class_if(kb.bits() < 200, "leading-zeroes");
        let (px, py) = mul(&kb)?;
        match want {
            None => eq("result for a multiple of the order", (px, py), (BigInt::zero(), BigInt::zero())),
            Some(w) => {
                ensure(curve().on_curve(&px, &py), || format!("the result ({:x}, {:x}) is not on the curve", px, py))?;
                eq("point", (hex64(&px), hex64(&py)), (hex64(&w.0), hex64(&w.1)))
            }
        }
    };
    ctx.run("p256", 500, 6_000, scalar, f);
    ctx.exhaust("p256-shapes", patterns(ctx.seed).iter().map(K::of).collect::<Vec<_>>().into_iter(), f);
    let few = if ctx.thorough() { EXTREME.len() } else { 20 };
    ctx.exhaust("p256-extreme-coordinates", EXTREME[..few].iter().map(|k| K(k.to_string())), f);
    let n = if ctx.thorough() { 64 } else { 9 };
    let order = curve().n.clone();
    ctx.exhaust(
        "p256-small-and-near-order",
        (0..n).map(BigInt::from).chain((-(n as i32) / 2..3).map(|d| &order + d)).map(|v| K::of(&v)).collect::<Vec<_>>().into_iter(),
        f,
    );
}

fn main() {
    main_with(&[("C28", c28), ("C29", c29)])
}
