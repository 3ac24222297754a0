//! Tables 7 to 9 of the Poseidon paper, Appendix G, with primes of the sizes used there:
//! (version, M, t, exponent or 0, modulus, full rounds, partial rounds).
pub const ROWS: &[(u8, usize, usize, u32, &str, usize, usize)] = &[
    (1, 128, 2, 3, "d40c6141e5c17cff44a6bdf412441bb06ed9ed43e5d049df5831308ec80b4aa7175469627a9c4c6c5b01c59fa486a01ce5186a1b9a776aee157d87a5e20b6a286620a62cc545a8a6e4194c484b69afc4aeb13a121cdca4e5a52d0336867b9425", 8, 83),
    (2, 128, 2, 3, "d40c6141e5c17cff44a6bdf412441bb06ed9ed43e5d049df5831308ec80b4aa7175469627a9c4c6c5b01c59fa486a01ce5186a1b9a776aee157d87a5e20b6a286620a62cc545a8a6e4194c484b69afc4aeb13a121cdca4e5a52d0336867b9425", 8, 83),
    (1, 128, 4, 3, "9c1f2a9318819e7ce066c9912c64ef8f1ff9e55f1717108db40852c1f1277e382a58c96c7502c439adc528e918f245f3", 8, 84),
    (2, 128, 4, 3, "9c1f2a9318819e7ce066c9912c64ef8f1ff9e55f1717108db40852c1f1277e382a58c96c7502c439adc528e918f245f3", 8, 84),
    (1, 128, 6, 3, "cc3c58d22431e72aedd10f515441ca7ed9f89e41d1ade2cfb0a8624e2c71aa23", 8, 84),
    (2, 128, 6, 3, "cc3c58d22431e72aedd10f515441ca7ed9f89e41d1ade2cfb0a8624e2c71aa23", 8, 84),
    (1, 128, 8, 3, "e00ca9e0f82d7f93243f547e95abdc9db05661b6d69a8917", 8, 84),
    (2, 128, 8, 3, "e00ca9e0f82d7f93243f547e95abdc9db05661b6d69a8917", 8, 84),
    (1, 128, 16, 3, "981fef4e7cce0beba86781e3", 8, 64),
    (2, 128, 16, 3, "981fef4e7cce0beba86781e3", 8, 64),
    (1, 256, 2, 3, "eba32dfaa7491cb17afd35361f42c3701278058e0f35f81485de7dc3ab34396f557369e5b58b7d3385527aa4b93c0aa165619927502238964e382d41e24badbf6117b4bc11e6d986b4aaff185cfa944fb559f783b03a2f310e67db0827beeb5b", 8, 170),
    (2, 256, 2, 3, "eba32dfaa7491cb17afd35361f42c3701278058e0f35f81485de7dc3ab34396f557369e5b58b7d3385527aa4b93c0aa165619927502238964e382d41e24badbf6117b4bc11e6d986b4aaff185cfa944fb559f783b03a2f310e67db0827beeb5b", 8, 170),
    (1, 256, 4, 3, "fdf48e5f83c86ebdcff2a4f10bdb3a0e92a824e8973063ab79a32f94ca7e2e92b7b672465d5b5b16d85a3039e6687d0f", 8, 171),
    (2, 256, 4, 3, "fdf48e5f83c86ebdcff2a4f10bdb3a0e92a824e8973063ab79a32f94ca7e2e92b7b672465d5b5b16d85a3039e6687d0f", 8, 171),
    (1, 256, 6, 3, "933dcf6a87536bbe5e832f253fa769d3de27f77396cb0c4a08b44a55c1c4eea1", 8, 171),
    (2, 256, 6, 3, "933dcf6a87536bbe5e832f253fa769d3de27f77396cb0c4a08b44a55c1c4eea1", 8, 171),
    (1, 256, 8, 3, "f23d4451826152b75b6d0cac46b5d028d2341ceeae413d4d", 8, 128),
    (2, 256, 8, 3, "f23d4451826152b75b6d0cac46b5d028d2341ceeae413d4d", 8, 128),
    (1, 256, 16, 3, "a6980df45841a146308dae41", 8, 64),
    (2, 256, 16, 3, "a6980df45841a146308dae41", 8, 64),
    (1, 128, 2, 5, "a8433a8f8e674d14bceec0e679e9f78a39ce28b895b7a95548676e6c2c183b927dd33b7cd91e910f5006227e47aefcb01a84e1af964a8625f7890e973fbc862cbceb30c232261e5a95a8aaf1649696850eccf69701cb352d25ff253c87c56563", 8, 56),
    (2, 128, 2, 5, "a8433a8f8e674d14bceec0e679e9f78a39ce28b895b7a95548676e6c2c183b927dd33b7cd91e910f5006227e47aefcb01a84e1af964a8625f7890e973fbc862cbceb30c232261e5a95a8aaf1649696850eccf69701cb352d25ff253c87c56563", 8, 56),
    (1, 128, 4, 5, "ffc8b03bb04f1b2d758260149f9f300ee3d3f8ced38b33181155302f92e88b55dce593af441077503756af313ba088ab", 8, 56),
    (2, 128, 4, 5, "ffc8b03bb04f1b2d758260149f9f300ee3d3f8ced38b33181155302f92e88b55dce593af441077503756af313ba088ab", 8, 56),
    (1, 128, 6, 5, "c15d712d2c21b9f6fb66d66860846bdc4ff36b2b1e25dfb5fc476e2cc04caf53", 8, 57),
    (2, 128, 6, 5, "c15d712d2c21b9f6fb66d66860846bdc4ff36b2b1e25dfb5fc476e2cc04caf53", 8, 57),
    (1, 128, 8, 5, "c5b7816b0eee039cc7682e75e18f4fbca5bd6af7affb8659", 8, 57),
    (2, 128, 8, 5, "c5b7816b0eee039cc7682e75e18f4fbca5bd6af7affb8659", 8, 57),
    (1, 128, 16, 5, "f4728b028e544bc4955a9537", 8, 42),
    (2, 128, 16, 5, "f4728b028e544bc4955a9537", 8, 42),
    (1, 256, 2, 5, "8d2e4aaa995984b22da131012b7883d5ebdf7148d33b14faf3994629b970eaf56e2df675546a81dbeb16c046f9f0928b64f8e8e351983e3714e547e46a976e42e451fe2185cb7923fc14038b2c0efaf466c7fe49c12335a6259848ae17290b29", 8, 116),
    (2, 256, 2, 5, "8d2e4aaa995984b22da131012b7883d5ebdf7148d33b14faf3994629b970eaf56e2df675546a81dbeb16c046f9f0928b64f8e8e351983e3714e547e46a976e42e451fe2185cb7923fc14038b2c0efaf466c7fe49c12335a6259848ae17290b29", 8, 116),
    (1, 256, 4, 5, "cb21662c93f99af52ed4f259586ce3e081f347484f1d27898215936f4432abdd7bcdf40dfe9e4164f5f151332a8e263d", 8, 116),
    (2, 256, 4, 5, "cb21662c93f99af52ed4f259586ce3e081f347484f1d27898215936f4432abdd7bcdf40dfe9e4164f5f151332a8e263d", 8, 116),
    (1, 256, 6, 5, "e967d7ee858dc0d0ce1cc29c11497bad8e76eacd4fca5389c674c07dbfae4759", 8, 117),
    (2, 256, 6, 5, "e967d7ee858dc0d0ce1cc29c11497bad8e76eacd4fca5389c674c07dbfae4759", 8, 117),
    (1, 256, 8, 5, "a999c4cd0d2a62fba68ed4ea62972b0ab338c49ece94f5cb", 8, 86),
    (2, 256, 8, 5, "a999c4cd0d2a62fba68ed4ea62972b0ab338c49ece94f5cb", 8, 86),
    (1, 256, 16, 5, "df8d9412c306c33cad193ec9", 8, 42),
    (2, 256, 16, 5, "df8d9412c306c33cad193ec9", 8, 42),
    (1, 128, 2, 0, "8a597bcef7efb50399960b58325cdd45f4b6e1f42ebcbee35cb964d1bb496782500b1ca624c727035537f014b8d7f8dbe7e40fb54bea99c96f7ab50ec926fd74e6c6535e52a80b3e4f51d7d7428faf56021374a5b3183b92a2dd864e6c3ba91f", 8, 65),
    (1, 128, 4, 0, "ee6c1024864bbb949e64d4d3d5d862c317baaa6fbf4f9707d910d42e21719481c4698ec27711c107b7df18c27d5781ab", 8, 60),
    (1, 128, 6, 0, "a630fac0d381161e31f2b8d29cae30fb0e3ab8c3b9b707dab368e9520d033661", 8, 57),
    (1, 128, 8, 0, "c7a0e4a5bbc309785bb066ff5617bffa1e24135d02597b41", 8, 54),
    (1, 128, 16, 0, "b2a7cfcf586ecca9c1c4340f", 8, 32),
    (1, 256, 2, 0, "98e732891c8358abfbd82cc314799bac7b319edb4c3b5227b6754fd3b703c836968f378db606d91c88b758f37d85823582948f15d5b5daf3a946d0858465b7ddafd17115e04b453a45f8a9cd82b0196eee559f8cf67ee8be9e33e6f11bdeb085", 8, 134),
    (1, 256, 4, 0, "ce5963e77dbacec8ccd02016ee7eb202ca39d088af23bc227c1ae48786442613ff1228006c2f357fb91473641e9a6c05", 8, 128),
    (1, 256, 6, 0, "ee54453da39d4db8cc942997d176497d63103cde755ee4c0cc4bbd78368efe19", 8, 126),
    (1, 256, 8, 0, "ebe8ed6d00d837b2e2b0082d667899142a6b6bf96ef171bf", 8, 89),
    (1, 256, 16, 0, "bd1b3f4fae5e5b2b158a9211", 8, 32),
];
