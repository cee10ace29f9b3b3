//! Fixed primes (generated offline with sympy); all are 3 mod 4 with the two top bits set, unless said otherwise.
pub const BLUM128: &[&str] = &[
    "c00000000000000000000000000001db",
    "c000000000000000000000000000022f",
    "ffffffffffffffffffffffffffffff53",
    "ffffffffffffffffffffffffffffff17",
    "c626aeed3928be739c1df301d94278a3",
    "ecbdde8f63a946945749e620c4f8c41f",
    "f938819c324ee5e3e18bfa6dc72ed43b",
    "f7c1b7547206ed7821fa101e433ae897",
    "cde4884cfbc53a499d94017de7771deb",
    "da676659cb0e9708a1765fad7efe5ac7",
    "f298dd08231f1ca625fee6ff0fc8ed6b",
    "c04fa46125dc4fc11a3d3da662efbce7",
    "cc3393f8e806b0c6a861bb6f44056003",
    "e971d1fadf0a6a73ccdd89e4502a492f",
    "d1ebab4d8d364377b66efa9724425943",
    "e424163b2f8c25cec3c5a9989bb8fc6b",
    "f0b0d6a2fc023409a7bfe9cc6c7a8a47",
    "c69b908bf1e08c2c12cd889bb056ce0f",
];
pub const SAFE128: &[&str] = &[
    "c0000000000000000000000000000eab",
    "c0000000000000000000000000001ae7",
    "ffffffffffffffffffffffffffffc3a7",
    "ffffffffffffffffffffffffffffabfb",
    "d5def3c42a70e8577400a8ae295dea4f",
    "f55489ac35cd7a7238001947be5900bf",
    "e86bf6aaaaa2eca9e59735acfb207e7f",
    "c41aa776cf828ff88e99081e745d2107",
    "d3e4a5e63d859d9d215a97f65936c59b",
    "c7b6118f88a51b5f4171469c05710727",
    "c805abdb018fdc43ee5b262f8bd2bd73",
    "f25db0460429f93aa1236ca7b1a72913",
];
pub const BLUM1024: &[&str] = &[
    "e9a569da2c3e8b3ebbf117ad2c8b6d4b901e03f4cadd84d96e91853090673453a6e15a74592a94d3e79add7c38beb55e0901790afd78315756af3833e0de72fe2241d8b9095047ce046e64d528dd4f47a4309ec6b49e4220dd1433986c065b7921f24a928d6749f688459a57af14843853e8bac78ffb0a5adbe8c0a627c8fd1f",
    "c8b39c8219e79333bf96daaa9966afd0feb6cdcb66d3d01c4082f9316afdd183c4115bba4c270c5cf78119b91ea640848a06e9252a849cabec51ce31153155ef1629741c5a7481f97bdcf0990e77a0fae3daeefac77eb9bd790df85a43ac73bd4792b491476381d5e5dd69ba28356ccc13ebb0fc5854e2082590ae89bcf527d3",
    "ca8cf44b7b06304c3e7785c1ce7cc6537bc877a6cc946080ac6f1c82b8b361acc96df280e98e2cf52b867db86f68733db97cfa7f6668873f5d5228e2c7456afeeb059739a657a7b6bade39e870c017fad8ac985336e3e76f910b777c7af1e5d69266ab2a8a46c594094bafac1bc905e51877a93a34599dc630afb862a91ca773",
    "c000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000827",
    "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff97",
];
pub const SAFE1024: &[&str] = &[
    "e63d1d9c592f06ed328b1a73bf51f152322a7bd2f04e0643a6d7d8d042f0953989426b0795fff949af18c8337093c896d127c06dc9e6ae8cd84d22e08b2901936d484c148c481f3367e01fe3ad026e13a827524b21aedfde441971896985dcfcfde0f50aeefbfa09149519251ce221aa92829391f96599ffaa3927d0a1d278fb",
    "ee61d34027b4ec99c4306d96445c0982882077327253cb07bbd23e4533de49d3e8beeec5dad86eda21b3257e082f26d43df69249eba1d346cb5cab9237adc4d067b7549e802562f129d71eca9f576da44076399d98422c6aec079c049d449248fe2040e593e0599c6f0e9c48d55c43442202539a6a200a8dac331a177146954b",
];
