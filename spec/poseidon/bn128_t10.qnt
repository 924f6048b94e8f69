// generated by tools/gen_poseidon.py
module bn128_t10 {
  import poseidon(Q = 21888242871839275222246405745257275088548364400416034343698204186575808495617, T = 10, RP = 60, IDX = 0,
    C = [0xe1962c232fd0a6bb54ad8962a82b9838cfef19d290a55fc49d6debd061cd2f6, 0x1e1f45cff3e74168accd0a94536fca6317128953eb47d8d2d79b847b355cf51, 0x1367eec3b20cb74953618fd9261047755ef7f8aae5ffe96fc8f7d9a02e37bd1a, 0x2ff6ad40533afa2acb78c9b91650d7ccbd274b09f78c100479f3a4d72956d706, 0x152c8c3d9e43d90ad8094831a74af8151fdcda0b18d7bd8374ffda68d1a5fc71, 0x241707db26f96df502364d26712c7f465d0ac5597a309559b075406351a20977, 0x15a4e4728a197dae6303d0cdd2b6d1e4114a9fad38a530bca6fd06ca1ffc1f56, 0xcbfd63f363978c387d656e93f11e336987a68748c8f54f385887e64b1075598, 0x1fb594474b8334f9aea6fe5e323fb0e0ac27d2895921ac64e93e524e4ffd25c4, 0x5ac55361da931c1b4c560aa8dbabc8624ba225871bce224addb5af901676aeb, 0x135f83314252585f7e011692cd9acff36df6be985029f226de256803ea704d78, 0xa68f262c9e14d8a9ee116bf90cd7d65e3df561bb3914e314e3f43f167f5c04a, 0xa8360a837d4c97b946633c353298b77d6891b6ce78e82a3bd39fb7e51193d10, 0x136a21bd13b11857e0f7670e12d23290c2318bdac830154cc37330ccad9a3fe6, 0x2a60989b8092f8e1c1cb0238ec85bbd6b8b659327a03e8e193c15a54dbb73c04, 0x1b5eb81f143bf326da0f4eb95d4f45c8142cea640d33acafc8deab155f37345f, 0x8903cf6b684826737a348acaa452e1ba9f9345de911f2340ab7324d0bcb47e0, 0x3b8b717ba10035a12ae4dc40f4210b0f0529ae837766e1a269522105635d818, 0x623ee7c19eabd13115398893e826eee211daea73f80fa53a22f8ce55906027c, 0xbc8b24369ab76647fe0ea278c866d4d45bc3f93e8b06e76901bbe5bf20db5c6, 0x1a327d5f540190e1c9cb1e31d857b5c51c5cad9f1ee126c44670b782d46c2f50, 0x1087efac87bfa4807aca410a9c297d23184c05bb58abfd43a3fc2dd483380592, 0x2997117304dfbb464b5cd4a4188aa4f6ccd56de9cbd813da270ad7ee699e8065, 0x2296482e919fbd46f7a518155e72a55965596866f32b1f8433390f3e1f0e4063, 0x2152d5f164ce09f6928ace2566bebc6109a4f62047e4747a051e29dc187525d9, 0x1054109861b3349e419216f1bbe82f4a57823a77acb1deb6c48fa267ee5d302f, 0x1772f4029540432ab8c6968b3739c3a241cda3ade13ece2ea0a0b157d65c2c93, 0xc296afdb2e037d7979878671c78a5f6008d98cbf75be4e3ec3cc1d44e8459e, 0xec85b22c62686e52cb79ab29a0181dc8e34ddf3167d1e353514ec868e729a5e, 0x149e2435c20d48a3ec56c4e45dbbc583b85bd64311a2576ff352668962c21866, 0x1d44140dcb4597c7214a6ed85bff1a3b5fad33fd7c530699bbd610e3bf5240de, 0x3cfb0570f824856fbf41513be01ed3271e1c38a16f610a8097cd27a1325d4d3, 0xf223b396423edc29d51e58872b2dab7ea3aae89517bc41957eac79ce9761379, 0x1fe6dc2e6e83ab88e84337a45130963337746ccd01c2f2be100080be32a59520, 0x47310ebb459fe860c954517249440d367c6efc5b93f70c410bc76f8088b4a3f, 0x21858ce69a019e4cd46096a61790bf7e03e10e3edc1a2988df768498ad667cdf, 0xda4f87da196dacc964fb6928a51f3acef042037db741f317b4d80a81cf98a8e, 0x198eeea981eb256b4fa43f05fa4e1aec908e57613eefd35026358080e329bc12, 0x11964efd21ea079340c66ad92fdb62b8a18ee08a9992f133a417d23b78cb1b0c, 0x4b07b1960518122f5725ceadc0c1f060928bdf0f5ec42e16f8c2934877b4143, 0x246f5fbb5f719b0896e07b4c23fcf1d24487b4c775983cea49500f8637709ec, 0x24d78daede9327f49eba679539f85d099d6583060938cb052dce50125b01cdd0, 0x23de932658d2f181f59d7234a67e174763ff790d3904cfb3dd10af8af4d8865b, 0xc4f5431daaa994ddf5f3fe6b1df0c0c42287a38c9a5c4c758f72638e3bdb403, 0x175999589895b6947d386d83a5e6f5faf9c6588d523c7846433212233f64d04b, 0x2d54cef5e3cad1a80471bc6ef0c6e4e74c2e56886a31d79257b2762ee7ab517, 0x1539cdc69fd93f2ea50dd12ebb0437c23df4ecda29c76aeb09437ffdbf01c778, 0x2359a45452824ba97dbc050086bb910c12cee0a908db1c2808979dedc8f29942, 0x880e5da2125b0842203bb98e5f24ae26228a5af5a6efd5461f634a4476a15f2, 0x16110fc6c8167930bde230d5df954f107cfd0da005aee44ec5ff642872764c19, 0x1310c844b70d6a5856f6d18669e532c2d6bd5d01e6a31e804d81a2f5adc63fdf, 0x2ea868217a99a6cbe79b442e2152853c7330fd8de757eb7555765879fe42ce2c, 0x29c5042471d909ee4813cd1a36e8eca08d4e0d383009f17c4a367a877a3df4bd, 0x25e36eda0eab576075e88ada3914c29442172a027c6d174ce0ddfbb017d51dff, 0x2d21058ec44674d8493e702aade5bdf3b691e3faac0427089e867f9ed856bc73, 0x18d17c3835ecab44bdb8b67efe2acc71d39e9d3443dd0ed11d95045409a7c788, 0x28a2f63b0e940afd2c78d00de1aa6fd6953e6d6ccc3aa3203b39618f5d698f5a, 0x2635f5bd9bebaff0ce7614ec7843418a9aa83637910229beffdb91e23ebc10f, 0x1fb8e8726525268018845f8c826b0e4d56c4e9c58ea92752d581d1a51702b882, 0x87e2ce4d2ae5c93ea5611d50c313202a80c4b43533b49077fb569f837ea1fe5, 0x788fa9532cf00f13c817f38ee1bab85fbc687998cf1c14aff5fc1eab115a7da, 0x1c5c85c57a1f7587f8d2fcefc1d4e98c2741a019effbd4c50334b0c15c3815ce, 0xc1fb832b7cbe0e7e11e8edc2baf8749f6ea0637b20e972a63315dbdd5be1472, 0x229758a22b52ec3907f94a117f6639164508c77bfdbc679c1b3f876b46caf809, 0x5e066ca1257d8d5edca65a2921fb5b5e01e3a2f0a2a3bc6622c791552190a2a, 0x2b1a935a4ff16c2500bdfee2086d9df3927a358e8eabe75f6a70d7db25a31917, 0x19a55993108088e03fe7fbc2a014509ce987f4277f729ba5b924d25b39e0669a, 0x1bb65a3f9a4375ad926d44c188dcfe51b5a5dd6a7ee152aa6ccce44813e95db9, 0x1f721c4d0db7592f9bda01fd1fbebc8e57452e218d8a2e19163067d4af128d37, 0x2bd32a02899498a973382a4d40266dacae898a9847c2b33c2ad30bcdc4254776, 0x28585b052d22283650a9139d6361b08ce94d17d7c8f6dc1d54f58589066e4a31, 0x3eb34352610227beb26f8edfe466cbfa347d7950bee431e7165647bf1c5ccdf, 0x1c1347ef418d657abbe6e4c019011bd34ddb207ab54a9b99f07c4044589e0986, 0x4a8aa3b18263e171363e9396847a1933f044fac5f5b11f754e6feaf54ec4747, 0x12744a063cabe92e2e18f000afef29c928585a03afac3b2f4c17141203944239, 0x10af4d39a72d2dcb65eeeabfca40a08a69b274129704c021a01388ff8662fae7, 0x1038c656b332e519f483d54e5222b34b35af12906d13652d1d8c6b0f509b27fc, 0x10ee02ed1176804b7d43696eb87643b4fb45f01dd65889e5b65128f781d39d93, 0x1d08ccd47541575c60b567fd9b6705de88248f9cc60af2343098d35d9e4f6d35, 0x6bbf6e32d26e922baac8c62bcf85ec934cbdf6870e3818cfe49dd3a4c70897d, 0x3ae60403f93a98370688100dcd87ad4c71ee529c4dcc3be32d6bc0621d42355, 0xfd0f776d267dc3c01a377d217e33a255c39937ac281a3b0eacb58b1012393c8, 0x2d4ab3b85ee6f55bc17d051fcef739168ae28b7e6d5aa4ac12a2dcc07b9ba6f7, 0x2ec07b3fadbe296f9bd1fcd1758f95e6b922db7582068d76d552184131e0832f, 0xa6013e37f560f540dbd3e9790600200777b86a577c2d2d83ec7cd13db319376, 0xdcbc3cb4aafe08c62731dca44c843012265950e0796c73d8f9e53a767c7e888, 0x198c373fbc6ba598020456f624dfc906f28cab915b70eb5568f175f842355c27, 0x2a9515770f3053638e3c064f5901da7acc2510fb29f5f3607f8ad1256ada07ee, 0x2d4154739ed8a6cf9a92e590812f15f93013163f57b8039773cf86348d5318c8, 0x2bbeae4c716ee136c4ceef194e7985d46415fc130430a65b24e9f47533077d9, 0x192b5b08320766f45be7bba9e9a70c0efc69afec2a75e4e071e6c8f55fb9ef54, 0x2bbe0e0bbda936b305829e3a74a82df030d4fd8112aa7f169670876b028f0702, 0x963722d8db532fc95cf2240a570cd7a136366dff544947845b6d487dc7fa62a, 0x16010c0ed7a37bca9682ac858fc8d2c4af513f02d0f17dd306f05cd57dc694cf, 0x24486122987e17077b026baa81e705e5d0cb76b4d92dd3ff54bbb813f3d09ea1, 0x28da35a85262582b220f7262ea68c381573a918c10dd17e8e564eb6da113e5c4, 0x1d3196aa6209085c34db2f0e2b3dd4bb6bb670e6ca24d27d90dc8efa5e81638a, 0xe56fe4b7ba62dcda0d2f7b9de86bce6166d79a0a0c3c695341fbdb407b9a506, 0x145fd47676ade5c380b90bf08020faefc8c3d270c6bd97f92a18ab94f973dbcf, 0xb6704486fdd2a633bf9e40a5c5e4091e2d430c937306ab3045b39b8b74e333e, 0x276747994473ba9152275d15beafe42b924de69728107898b4701a6636df3cf4, 0x12665324c9fc8d246c1518e040a15e3a17c0f83f0a479571d8f61a47f3982d21, 0x288c589327ff97824eaa3dff40bbcc9ca73f69e43eebf24b29cd53fa111cc8d, 0x2c3b3f266f21d21da33e4c39001c7a703e6b93e047357840123f30724fda336c, 0x1d089260f53d9b6d912460c6a9d9ff9df5a6391a492731534826a5575e8a7725, 0x52226cd4ff2c85dc3fcbbfdcaa0ecad7125a03d533223c8667040fbfcf7062e, 0x2712f9171804273a9c1973f7e87fae28bed9a833fdb70ed93dc6274865869356, 0x276f2f781e0c9ca0424a9a5135593be95764a759c231199db5d5e0e776e15aac, 0x2b21ffc3ba163ea61b7c0b717d519c64aacab81957e268e175f46876e9ac6f62, 0x2f3c2b6874b81531b890a603be7e36ceaaed6c8a3360a868f18bf23736288c09, 0x56721148d9a370a8e8128ee00178695f66ec5063c6660ff554913394cd5df67, 0xe1712fd1798dbb4a2976dfaa085bb9822d2d2693983e99c76a556e75e63313f, 0x26c9846c7ca0b8227b6eaa7634cfaa6c4a13bfa4710cbefe80befe5119c0b608, 0x1ebb9eb479a644d25f53dab3e6dca08339f0effde9b7aad7a34748507d69a8ae, 0x1611f5e2add8ccfe9d093bea1d55eac62661a9ac9713fa4c70895997441bba88, 0x2462c3d5555611aeea4a146b8da50d30c419943c1aa600e5b13bc47a3810f63b, 0xf376eb9e7de4c45ff508a22b34e55f0ffda026826a98b298672d81c826b6292, 0xe7ff80c3d19a2ad98c8c52a5d19d1712517aa65826291ae6e75e0503c8b8a3c, 0x2eb13ff66ab49a73aaad760f5bf271316f3f8538c526a1a64fa65bd3b3fc2d4f, 0x22a40e530de7dddc1f842c9421192c635b43a6cb1f83d89ddbd3c56c2a512edb, 0x2740baa318c02fde162c920a6245b0f2208f7d0ee189823adb47baffdd5ee21d, 0x1965522cce8bd29b3ceb508ce40431f40d54b59c0411e5ca427f8c1c789d29b0, 0x10a0db7c2b0969dc250647af0bdb0d99cea4285fd8a90717c2760232a906be7e, 0x295486271ada3cae4cfe3721e6d7b0acf21bdca3caa0e020a6d88ead1f2bb11, 0x1d00206d65a92466ddef22e5583661c68ee313cc40a01c090e5ccb118a1af13d, 0x112222605052423fd6da21d95545d6e96878e5a6f43fb2666e2fdc5937971bc5, 0x25cfafdb7df32a86f2ff44a32ad7b2fd9a60f31a44e5b5ad423ae52b0e3ff2ef, 0x1a42aca3307df84a81ff5b9fbec011ac9fdaf3d9c73cdfe95011f7c1ac779d15, 0x14fb6c4e0df0063275d380e67c251a29ae638028d8e6072a6e4fdff4e039a4ff, 0x1687f501a8c07c9e43eb4ab2244914b651293807a28bc43d73ac4b5640445264, 0x2d64ba4067ab898f7b434409319d7cadddb14182f613e46642919b43c89b8159, 0x265e19e2a2bcff9489cb749daf9b77256e408f180cfaf05506e11a02d6d4b142, 0x1120d9116a584ecad323cb8b8825b9e43ad16ce59c5e8bb5f11b4ab8e5ee6801, 0x135c200f7c145c042fdc94ad5bd2e4661b0db889ddc3c24a207f5c7c4098034a, 0x2f9d365d9b5f9fffc5491c0cc39e6b9ad14e4d8794bf76e66beca2974dc6c65a, 0x2bb27c1a1e8452f317bf86a6384954f8609a285004593c52fdcffe7d85812df4, 0x245f28da6986368776968d7e5da1763d38b4e1a5b53ac3b457b26d35d8cc553b, 0x16047c3f4ca23c6f5daca5d01ebc6721a3d156ca4c35e0084903836bd12893be, 0x13299dddb9e277b122240d08656164d15f8d15cc7483de7087e8ad96909c0565, 0x1590dde29e11424a0e7f7d4b3e0fc7e412d092463cf9545b7c62260ab2d434b9, 0x19fd60baa2486bfdffffc8f672ab64cba40b394f2818366c76d05b77e91e2b36, 0x265828edfb0391d860822c4119b39ceeec02191653f95c7392c01725444ee849, 0x23bda9a3c2e8bb1b227b126ea574f97ec7793cd80c62ca44cf8b2e415132bb1, 0x1b770c804bfb918b1976e3357ab884668b0d2aa414e007ede000714714aa09d3, 0x1d84eaaba6521eb866b600749069e6643daa80f7de10ec27351f1369a3729d13, 0x73a0aa1ba4c1e1e982ef00539183ef648fc441be88ab1dc5315a0cbb401c9b3, 0x25ac099aa85c9e2aee6789f2592258cdf5ca8c7b5739e267f12034f705797f81, 0x1c1f0dc22ad54da9f26321b793e014ac1b853001d156eb590e6ec522e6850c31, 0x103749ccae90e434a1d961319f96c744e04ec0f77c8c6505bc21a1194da6c14b, 0x93c47c9dad5ea61c8566620e4f436c36ad00d046b252d2264d06d9a377e9c68, 0x12d48a22d443711b05bba73fe7cbf5e0734df7ed34587f85d850a5158c0a274e, 0xd1487ee7bfca46febcedb83e9dc73c33d3c099bf3c1a779334834f89f7da334, 0x2ebab1e544f6ad4525eb5592152ecb46f8e0f70cc54e739f5ae4c48945e534a8, 0x17260110bc0fa2d859a65a519b679cab157a6485e5062cafa3d9e8523543d460, 0x14b60bb1b813533655b74d1948fafd94c73e1e0bad2bf3e7cbbe997c40c22cb0, 0x144ca9b18104b5bb5a9d21d73bd957f373259539a163c78197210cd16c886641, 0xb698540c0ab22734bad58e48515ff84520051215f5ce4915d80444032a3ba49, 0x1f458fdf92a4c03bce2bf69dd3dd4e26bfc1663c187799bb35958d3613e25bda, 0x26c0c3f9f2abd19392330ee93e2554abb27ed377481e2a2552798dc952a0acd7, 0xfe825bdde1abafb480e985d6fa8f4c7ae9c6735f9be0a6924293d2ba1145c0, 0x24deed3988546ae6520a6c20c7659ebd2a5f4b828182a30f5195674997b1f734, 0xbbbcd555c184aae0891582c61d65195132ba14aa26fae5bca4cfa0ef71c90b8, 0xf9f78d85dede378437afbec3f6ba40c8e3f674cbaa51f2fc53555779ce9aa4d, 0x269cd2fb8c03936aa6e30dfd09c34ff786c83996e89f706c39cf9a673a79c8f0, 0x40a5ed55c1541ad1431b2e0a5c2370cc0ab8cb2ab31e62505f799b0a535537e, 0xb10db52d69a08382c9b0f60d53c586333018877ec879067a2f9548fa035b613, 0x1e6cc5c4090d2d91f567237064c57abb80f1d1886a509cab6bc23e81767a2aa0, 0x104f9966b6a892138319ca037d4298fae4fad5d09cd05e6e4814b752e51f570b, 0x29d96f530ed5cc92c904d21bf560c82923bf6569acb90abfb9d68c495cbb9814, 0x16b917a241c5e2a1941d745666d8adfedefb48f9cffc756fef6667439eaba1fd, 0x28049dc8703e7eeb4ae5cb7eec9d0b9614f33f03beca54a67d729cff65971fa0, 0x2bc236714aefeb86454cf972676c646a071e70959d53871a23a27bcc4a514b46, 0xe85e3f0b62dfac04defe89326b1f1c9c57f95dc299ef95fdce2dd130b0e09f2, 0x1576f55650e0dfa819a1273e6a0fa04c1f1ae18f1f841daf0ad5a235793b862e, 0x2e6d1f984d90d778bc0e0990dbe6be66258ad00487129ab3438da90c9ec307f1, 0xa5216c240378084d7410cc778801c590391c6f600a85514de1d5cfd2e29fa95, 0x16af0c6ec857714b9e9e7932ac8a6b1b01fb42532e51e957c735e02403ecd492, 0x7ef3829b21e86dcdbc3aa02fd246b8fa8e7e4c21578ef0584874d36de491aac, 0x21cdfdcab1ffdac2baf015ddad7ef6fc196b7442e82b370a1187b484d5d62d5, 0x911aa1ce608f4234ff3b9f35d9be546f5e7b94bf0a25f8bccb3535ebf1c5846, 0x1c861eb01c4b335ecfdb63207c5167f2f2a2dbbd4c604df9739082c5db91713a, 0x32ab5c0093afc059d72265152026bc674b6988489fa1922d3f6a130e6e98c0b, 0x1dbb7c4e30b3bdb3a248e0118c9259c31b75bebbda8acde2d114311e1166b850, 0x295721987b2a072f968216f69e14afc10ac7ce6870a1cef620b9e3167121e565, 0xd848bbb53ea8c72c8ca0a933711061cd11c38bef5204e1987c6e0016cc87728, 0x125437f6105b57329c045376be9801f150088384916ab57ee90e4df260533e40, 0x16a6f85cf070a9343769dfbde8cec30d62500d50ee294167b0cfc9af4707ac24, 0x23e4ba166e2b5a1506df9dd4dc74c7a30dfb79f493ade38be21c0a604073d359, 0xd7a570d5c131bf78031c66c8ae5fd454ba9855fab92eaf9ca379d08e856414f, 0x21793d46a696ee5040f599f482bd9845356c02e4c2b07a6450a1005543665821, 0x4cf9f12178ba86fab11c12d690e620603525ff7dfcb5606d0f67f0a7250d0a6, 0x1e1c8714aeba7e7549e08477b4365ec2dbebdfbb6018937f680d3cfadb5b9224, 0x125f99c81db5d7e74be0c6e6b4476dd0e503c1c704b3c7d3ff0ed356f9a5bfd4, 0x111bc3215b3bb2a5d17257fa73a77851d2a24e4804ad1ac6e652f0858326ceb2, 0x9e73771faea0065c80653dfaa8bff402eeb0be36688343826faf639f684b31a, 0x964f621946810a123469fce6b544ff61cc9b733033b632070d47bc9474f4b0c, 0x9532bf9f11051f863a4e80679782b0732d663947390c12b02954918a18e47ad, 0x1d14808c54583a620e6587c24b993b1838a0eb07395c3085b449d3135be322f5, 0x9b88cebccbb2a0a18e2d2e799e77cabcb4a231123c303e98cd897ffad598d44, 0x24ff5ab38ef457484493054c9bd3ec894a8566491a91a52bd788343c429d0a93, 0x13eeaea2298ca24ee7a73162ec3a21d817ba86f9772bb68c0461d115535daec3, 0x11600a36cb41fde2dd26a7cd4a98cd8beae0a04e46db399eec5c1d49020510f0, 0x2c7682d3ee4ec3ce7e1f67cce9bdeba4a1f669f04d9f7a4bee13b3c97d3eaa3a, 0x2d9b1db246b004e185b08c953dc0af4fbb7c7dc67b2378eff707507b2db06cb7, 0x17f1407c2872d3810b7474bebe3711f72583cc95831301b4e3e06a3ca9628318, 0x89fd58055d20602bdbc2171ae485ff48f205301065932bc9d526fe54d297f02, 0x2779eaf53710f3a5848a8dffbe40b5f442a8a13c514ff97501fdca080fb3bafc, 0x7d6c3ddb807b8634c89aef35615da73596e8ee1a8cab49d022f0bca8780ec15, 0x1b2918da0b9beea69a80b05a151e681722cb66fb8ef1f7dd82939e991cd021e8, 0x1a21a1409ddfca99e3c0987f97450840f958524affeb28c18fde739c8189cabb, 0x1f9e67e3979195d368172267a6ba3b448173e2379f25caa137ab6964714d1fe1, 0x7e57931399bcc4119d9cd7b2191793de0ee69474716b08008a9f68a428787a6, 0x9ef7d4aeadf7bf593c5a79279e9e65578d14315df9dee07401693d199599482, 0x285fe3b15f4b43269d4cc0183f9f75b0b4fe69ff170ac641b18c7fb105d2d711, 0x19a7682bfecfe18fbab22301273895c1c4b9a994877dd778646e9dfd64f24dbc, 0xab794b4433b5d0ca9f3f9236159ee7b9f112abe71d3a4d19385202c209501d0, 0x8ff64f5bb9e3f8be81573117e011c803f69dc6a0970dc05118ab1071a28980c, 0x2f0d454b49e0366171d95142230002d70f90c8c37047c6b258c07c0c9d0388a9, 0x17b463c68fcba461e149e56eda9e8db1a4bc5c7b8289b0cd4286deb5c93554c8, 0x2d1a83ac832e49280df94b1e27bab65faa9e21a60a48ef0f4557c03f9b7d11f1, 0x1e182411560c80d7d4c480e4fd65b9997132a4ed29f9a8dc3d882209b63b07c2, 0x4bc5c19cbb312941ba1b731f096349ae7624eca3b83be88647080f794d7fab3, 0xf10a1319508c09aa4427ea79071da02dce4a1745e139e6949f99216acd8305a, 0x7579d96bab793ef1f740713f70f3d2cf4af1d20ea560f48e6f8c04df64f2077, 0x1fd8b55d0a28cfd009b298b30e226aa3d42433dc148318c99c4e32af13c5144a, 0x2affd50c6aeba57687d824aeffa55c217f633d46840c928c0373ca46432fa731, 0x2fc1634b69dc697b668fad3e89c88186a76e4077bf6d1140d8e428eaeb7a3872, 0x23a53e514ab262e22eca7ee722497818c064f8f74ccd330503d7abfa85f015d3, 0x86ea98e8a4edb6d8500bca03d53a03a22f69b6f132c99ecaf9e950fbf26c87b, 0xf48915855b4d191b7c37d85e8a5d491648cd4e53f5806d499a8de87ee10f2e2, 0x13e0bb95d9d3078c10ed2f731f57f5e9e40c95637574e95a933d9f2a7aa56c5b, 0x2bc35b0c5b335dfc6f1a9362e5b389dafeb65f0ce5b44548280f46c16ff51feb, 0x5b2ddcc86a8504b00808acbb4a643b169db2b07fc25c9cc3138467ca750b5ac, 0x1750d1a47da211d8e8386c198095b83ff665b589ac278bca8c0fa01bfc683cba, 0x1bb5321e95d1fba2b22cf4d75e2ea2c3643b85efbbf1a3b2cd4be0e7d123880f, 0x2a4e8ad4dfa27652839ce179e0964cc4d4732fb55370901b3292d663bde41ecd, 0x19b984a2d5a0323b956fae09b529bdcf455122c443eeac7ff1584bcdd632787f, 0x11105f818cc27232a8445ff886ded838fe980038727b9e2b33436a55c2f9fd3b, 0x2228205732fe6b9af281b5b2b5fda2d07f5184c555fb52a7f514c6c1b1fa80a0, 0x20b4c468bb8e29c186e7f45feeef84bd857db85643aa798bc264519daa463fdd, 0x14bcd2fd5c7392bf9d93e49b5855b5f35c717d4ce51137b8751b828386a7a5f6, 0x161cb26e6fa48dbb05a5c3bdab4a1a524469f98b8d10181f2848029c795e0576, 0x26d537ccd8d4f3e62fd0fac41c6a24c9411f4d6ddc03276bac261768953bd745, 0x1de7d3df97d11a081106a4bd21b97603a76adff165cd40ac747ed49e61c611f5, 0x29800fb0020ae18d4efd8fac1def5c7607af35f4e223904acc6a14d8c6d14ac0, 0x271271f850f692a3503fb72124b583a81f3f0ea6789be3a56ffb49776579eb25, 0x16694bf37fe421340b186cbc817d0b136f972c935579f2da300d8f3c663481fc, 0x19ccaf839bcde3fb9764e57b40f8be036c1d0ad6dd23caf40f0c2dea764b4538, 0x1345bc63be8e3e86d3eacdcc4cf142542e0ac660f6f75fe34d3c7f3453823d2f, 0x7e733e36a63b1c54e453050ae43078c86a1803b9bc1984f836da9e5bde26cf4, 0x67df85fc461d1e13b0a744c4f7894d3126d400c0f674115d764a07a053f6431, 0x3c2025ea4ee2c19b2f8d8be0a2b90a1d2f43453515ec04257ae1fc6ce5334af, 0x2cbf1dc7af58fa9adb8ba31b1930847624cc4f8f67cdd8bca3a9276c1f06fbb7, 0x12035a5219b900dedaec32f62cbb85a2228a3e71b53afd4d2fe6b3c964f91fb, 0x1b8c713c90d62b367382c0ceebebe29893157acd56e10755d10699928f3505ae, 0x14475f758d5db01a2de2add46c405d939eb1af0ab36bcf26ff93e4860541dd56, 0x213776f1e0fac855f958cb20aa090d4fd47e70fd0e936f751037fc33cf9c4127, 0x2acf42c1eca1a093f10198dd5a16bce16bf8b21107724a94aff2f190906e6980, 0x19194b68b898476596a9e2d4056e15c95a6648234abbbf9ca592cc2c53703380, 0xb20a1d9a2470011eb2f8180215400b583cbbb1fd085fd53bdd1c9217cc5a3b8, 0x14a7d1d7065ed6f6ad72a0ef3b848d76034f7a95d2da2a06433c6c4160ef9c8a, 0x19142416e3b168abb99babc17ce6821d95a29a31d92bf74a122a8efe799f9bbd, 0x2cd1571dfb32abe6e5dfec8371f8130cf77566a9eda06cc8b6466fe9e1b3c528, 0x1cb1ebc4b42052876e83040bde7b380230f5f145f9400b5d4d7136a61c6eb458, 0x5c4ab72cdd1de95419689661e5e735e15b3ffcaeca1fdc8669e73d8a6cbc96d, 0x24c8da03cd8fb497e4f0450069b5d4deb102b64e68d5889772483e8d0e3974d7, 0xde8195805706ff74cb251cfb0bad9b9e3fdd059d01a5fc7c705d60971fa4840, 0x304ce8cb3cd5519623520a4883d35792256dca0c12dc1e855157a59daa4508f4, 0xf36b586984d1959a79c38a0e06450edba003daeb792c8d4df307c55c9efa8b1, 0x1a8325d55480646ac7faa3addecb2ec0ef7482f10a099c5b4656752e24551869, 0x2d7f6744d06196ae0879f406814aabf889073505deda846651fafc8c20185aec, 0x9205507dfc37672dd9711d7bf42e7de290b366b5df2367d437a82dc9e086681, 0x1c22e9bd3f23dfc3f73dc73c9131e16a8b076818fc8823425ccb1b732bf5493f, 0x1c5976233750078411d6c93680d8879596dfaf5f92d48fd4dd94ee5d29c51ca1, 0x7cb86c6973abbc69f89d248d744147e26690a61b6e31d10e980137879e42673, 0xc3c9880a8248520b611ee4df7fdcc16a66af45f52eb010457579107dcc99d39, 0x3928e6de66d490cba3a1e3e3665123919938effa7fc4f8c9b31bbdee1e479ad, 0x340f788573b536fe1e42c7fd409d367124723dda9c4b0f3b962e0137667e87f, 0x30a65bd5db79f009cc1b3fac1ce464c4c0d543385252da017b116146fe80d82, 0x2a42a802de9085d92c3bdd4086371a3f17ed03c08a2bc61b3e43e0539357de14, 0x1549a1cb250435699b3a2467f83901128094446a6bba526d5473e8241b5004aa, 0x30501645d7f67d6d4e1f64b95a344a85bc6a6f97fb361e7692c96cfd54a1d414, 0x1c3ea369de18dcdc3378f61dd563a1aaf256982fac9ea0994a3eee26c1f5d00a, 0x4f2d2437252a0d4d9ca4c1b01b66083c701281c233807e744910b3ddb971f3, 0x132fe529e4aabd030412962480562c95c8fb3c4abade9326e1d87becbe1392a0, 0x19fa107156b961886fb9d99ec13bcd8d0c4c544d4240c1f7f43c77c63f144857, 0x2d5f91cd3cb552dac7f7843f60552bde86f45e8bbaae484c6b79ccff34ac5ee1, 0x2dadd9a69ad146e65bbabfbaac3378af9c5540d17b9ba19bb29c48c85dbfe71a, 0x3c9003074e450209212b3bd1622da61c71aba0e8a094a7660be1f4638eabc8b, 0xba91729271f6b814378bf2b847490d8b06b46ca31cc5c4fc74c1cb04b71cf14, 0xee583d817f1705ac7ac0b9ae042158ad0d5ef3672c1d13dc7dd794aa84f3061, 0x1140026a5abd89c4012d2c43a478b52fbb46ec0861ce5b3b7c1cf69fe5c40f62, 0x176ec0bfa58b3976290ac145954418c577ed77ab87fb9f8228175a9ad8e6f5fa, 0x13e5899c46c14f7004fd0fd376476cd34aa7d3b13470fdc5232d56a3e59b47ea, 0x16730ce766f65c06cb611f8d7f4fc3d53c6662ea12ca4502bb968873f3e14f86, 0x165db0eb885ffed5f77a557b3eb21ef2d48b4a7cc6220709de00e61cd9f8f525, 0xc428278c217c1e7e76e3110f7e1b26a9095e8c8cbc07a171714e9afee2670f9, 0x2ef183424c590a0a5d3b8a639f37e4e77d10fe9e12327718b8ecc2b40a2e92be, 0xbbbe09fbbfda7b6e06cad868cb1a389fba5ca299ed9545351c974e612f5fdd3, 0x2f42003eccab3bff0dce2b22a8769a5ba1a0a6f854c73a788443bc13e8fa5ea5, 0x59113aaf928acd9154ea9295a5a69f864149ec96f0409673be860cdc1edded1, 0x1fbfaae77bc060fbbd03ffaeabae2cd4d3279363c5e4643783dfb9a5d5946825, 0x25b3cef1d524c48156e9a24aa0d2c20ed32fb69b4debe1c12de50db246e3c805, 0x15e6f0329ed4e44d0323f02744b4f6d0321e204fd38c99ccb72a35784b94026e, 0x16e47f642bf13ce66c2c2bca01a2763d704b46de0d7c99dcb2b480707c1a3bf7, 0x1d9f848cb9dfdb81cad62dd5fd43156e57c4ba194e32b421aa07de9e0a8700ec, 0x70e206946f4cb2c2a7c5c7c0ca84fe53ffd884279259eaeeee00627dd985cfe, 0xa5f91aed115950ce6348b0f0f001569243c840041b974e4fbdeaccf72b19da7, 0x27736747795d235597047a57b524dd4c1ed0e3f42798215ba85056bea765540e, 0x167c1d76479106953282f945c8d8cb72160f6310470a7f5165f1572d6c27ea4, 0x1becd457d21ba094804c47c3a688734bd543b2e6d7cb51aec0ca89d6c1e3c355, 0x1f43386fe739e7f9c63fbdcbb82bccdcd417338feac1eed42def7150d4a21358, 0x2d091c358175583b32cb97c58168f32d83a68c99bdfa7c2008d9c454b0eade16, 0x17257c5bc8dad57ef6f66cc041a1606350900dce184c312426065346dbdb1ba, 0xb4adc03c7bfd313902dda678c2fa251522a92a7fc6e4b47d4f1ff98ea1f21c4, 0x1af84524441ac03fa2d8b5b391a7c371f2d9cf06a09005fea6e3b708ccce2cb5, 0x23ecaf81286336251a1fcc5dd44a4ab9fd3940a048e771ee4668830744a5a9bd, 0x187bc703cc893e2cba22fbb598c0e778c2046adbe58b3ff252d7b635ed990c20, 0x260b02db111d63998b6af09a81928f62cfc97c4f8cba26e828ff5c057a0e55f3, 0x2f0232a9940c4c4cdd0e44e3c4785ced14ff13b5f871ce2f6ee35742ad050ace, 0x50adc4d5d64807f730d0f450da5517479a3786a3bb2c8de24536a7ca5de2d8e, 0x16ab8f682a4083d0f999f5816f41cc7edbce82c0d59bccaa89c254729440f981, 0x1127fb2f0ca9cc953fbb1d4793474263a6e51b77e72c38b1147ef865415d4dac, 0x1f6d04ad97f2f4b710f91f5226a8c55ecbc1c25af4e4ca8b76cc4fad24eec674, 0x141be544be4c23b3625efa886da65e675b6799028d3a7a6dde1ed149faa49678, 0x1bf785f9867194b45e21dc76b200325ce4bd664b7ce3699174b28c0fb3243906, 0x24d9be7c32c7e33bf76816e19a3c1e4a887c9ae74d15a7712dae802864c08651, 0x28a481ef8515851320db9cfde816826a2eaf994aef8a551a3d0022d77205ad6c, 0x20573c158a49c54731fedb7c494eba7cca17975cb4a448c688bc56495907261f, 0xa15b156592972641eef2970904de3e1334376ee64bf76db4bf5e7c8542c21c0, 0x1b2bc4a3f3f448efbfa21a4e41d5d6e09b73574739b66eac27e65aa1fdb78c70, 0x1a79a5d83a28bbc4c113600038135e86ce6188df4dff938155301593d4cc73aa, 0x1e15e7f11ea36757fdcfcc558e7c6bd8c7cb8484388a2c95258e2125164df413, 0x298a03bc1edd776ec3372c82ce73c44b3e12e9509c124459f15d9df783953816, 0xacaed186bd21b6bf01884c2e80dfb84699e0bd83b7770d03b918d24a0129316, 0x2529c4ffb6c39cfd1aa6e04800cb59baeaa31da43903d3385b2ab25864812963, 0x19c47c2a37278f183f3b58427114139b3eb82c0b890c4199706ad944391fa6a4, 0xd2701bdfa57cf911f1cd1fb435fee068caed685c636382249dd9acf45d4c989, 0x1e58e36e0ad7b4bad27ac7f76d34ab497488d1661a444dbc07cb9c7219409f12, 0x2698b2f66fb15f3b16a7e50cbd835a31fbb83e0b65982d7a7acb2971cc5825b8, 0x1c3a8e3737856514071a5891b7eb286fcc836f11b629c12c9b61a76a6f6dbe2d, 0x2927ce5173086473fa445d53172a05aa66a8f9d9a169f685c47aa989b9e0f5ac, 0x25aa17d824580d6d533236412a489aa45aa389b3d3d55a345d35663a1b143bf1, 0xfcf1112dacc31179819d66574a5cb8ded45003f76667d34c1d34153d8fca994, 0x6032d6e50d059057d461477999efb4acabd1a9da592731a4048ae8d19b3d351, 0x1e40e819f426fae3dbb00926a7d6556f30d84934ccabf99e9876351d1716b5e, 0x27908496d0906f524c251653251098cfbdc97b9d7417e437710e1a7f4b80d08a, 0x2db1814f1435cd07ee54f8c3205c7d76262cb5fc5da605836a08d47f3fdf134, 0x19377a45d6a5de00751ea901198e1a0acc41ca8a99feae5eec07fe5233d289bc, 0x2d004fc82e3df9a9b89321823458832770ec80f875895a3ffe2370c0aaa5cfba, 0x17b836256a7de413cdcf93a4c4f8fb6b76975b1efe30aeef0ac12a83b3434c0e, 0x1b234a28dab9149e2cd39bb34f794a85dd125f33383b77841b913128cb86a3fc, 0x158861fd76bd8a58950c0c55d9578c9c6c3ff1aefa88803f32770adb1a6f17a6, 0xeef809302d3141584285618b0ff2e6a373b1be0db0685be371bb601888aacb4, 0x1acf3ee76f19de157996768dafafe604e185bb23356b6e2592032eb732dba44e, 0x2f4f55f57b771ecc15813526d73b52b2fa1c4f065517b9bbf8c3658040e120bb, 0x622964ca65a48b30d40a9fd4e8fa757fd737f020459e74a533cea55829072bc, 0x1c8cb349b5eba594e3e96ee041eeb7e096facd421f789bd7df6aead030cfd1eb, 0x1ef519f3b82f280469c1ea7b2551d3a38d3e50ad2b0c52ed0185780e83470697, 0x71f966c5bb87111e1d0f03d17e2885ddf50b7b5dac99f2cf9c87f25a1383354, 0x768f94a8cc8222f9d2eb36abaeae3b351ad7c8fd075971bc95de6c2422ff2ab, 0x136fb9d089170fcb343dd1f2cf254468118c97ad2c951b6b3fe4933d5a4faa70, 0x14204ad52e17efcc8d6c3b29ce5220a5ea8c6829e2a9d33f646df24212c2ca81, 0x19349a56f15918f1e9c6c587cd23bb3f933af583322dd5c0fa6166cf1cd58c6f, 0x2ffd15400e3d57af1d503755eb97d331814aae9add4764bb7e951816e06b4fd8, 0x1880d406f04352ba0e70d1ea4e55302f239327e1dfbb0fe9fa74d947c04304, 0x2194fd04a6d3e80a04f53235a5f46e8e2225e99c530173cc28fb1577a0ebaa4f, 0x1384ccdde57742281a3d117c0dbc825cb7d1b7e2b57c0dee6521d315d60d8a11, 0xab80f679adf8789e9f68615f8e65cade12c9c19e8b096f9d7a58a6e9155afc9, 0x1be3a55706d4814487268bf10196ee80009ac69d26eaa4ae6b8299d3fa27da6b, 0x1f8a7889404464277e3fa7dad1438e5a55db2b53b46f1080ab25b31b538acdd4, 0x263c85c58282f656ea6193f72641aa2cf99ee4f7e47f1bc1bb22c46cefadbaee, 0x1019099267ff1ed724e463573701f4c2d074337b27f474060dc35e72ccd18a1, 0x429bebc430d4062e38733619b8d3fddd5c26d05b203ba9bcd5fb9058c7545f9, 0xa03e113f74fc0aee3e546e5937bf8c561c12274fc5008cc63180a26004147df, 0x688887334f483422f47a9397e45666c9fdc15e508fbd4fa83a5e722be92612a, 0x1cab73177feeca8c863601745b40138d81b0c209334aac58951709278ccf7c3f, 0x589e112f43c979ab3b8f131a7909a284f3786783a9205271f79813500826f3a, 0x81a1d79b226d02f3edc79d6756b2b78d06b7677fbe7bfd2e1c73c5b055cf6f8, 0x1d126b23da26bd262a0ba45cb83b78ae17efcf1aa5b97478d90843f0a618e923, 0x19d02ccaf1f728c35b88592e300daf8c6cba6eaa7334352eb047885db22f97dd, 0x1e7e21dbf66da47b76b4e025bbd438a654d665eeccff928e29ddd0587bdabdec, 0x169ca09f61d1010465b3d6a04ea6f323ff2126b2c513f473e258a738c34e84a3, 0x1afc1d0db8f4d43d32193344634043bd3cd59ec3c9e867e58f7c83489cf8e1bb, 0x219f8604bfa2f5aebd196ece21fbaa2b5e9d5a62855beda8781afcd668357eef, 0xdb71d9be8548133a2605d713b9f50cc768c1ab2824303b141f4b2f274c6f098, 0x13603e5cd20c12ccf12da4f7d04e9555cda644e5d9abd0f5417f7bb8c6c24544, 0x35c4356044389e8d8d3d84619243b57ec30cecc3ba8c7ee66d8ed9877c40d3, 0xba68c56af0f045fee1b2266f53980c31cee55187faf97b612dcd930cddb452a, 0x23f4759e8cf82af4e51b1a31233dc5277f53aa2422435da2698f1b65a9515787, 0x12012879b9f59dece1ed0e03b17ec94a6ac6f2919157ab97dc1d5fec6fa4f017, 0x1915797a54b7038336310e46e2faa0b48ba3e1a2d42b8b587bab86f80b9594ea, 0x190ed18777ce88aa8ad85e8ec239d8259bf0f51ed8996339759d0453429b4425, 0x24e04081c1519eac3990439d5f86f2967685fe86b8dc37a4444d5fbf2ab701b0, 0x1345cdab47510fdbe7fc389be04256335e387d3f24d2aa7326f59399a10c85fd, 0x119a3ac7803dfbda5564dc8178a79cc1eff78597aca6fd95b3dbbf4952511e7c, 0x197b3596d3b66cadac6cc4d88c2da1de336594ee48a4f2e82ceefd9c81267b49, 0x15740cbf5b80c058f671ab7b14b2e0bf3b15a44dca4d640da40453d0ebccb13, 0x23da644943d6f890a344249f0d499702838011dc6e4535c478efc8a0e7ea1afc, 0x2344f76a1be8f4bba48d9dec02fa88b6eee01d1c48d7e37d7210b5a8e471281e, 0x2ed6f7c7b4188acd5623022b461c2672054ef8f69a05ec58fc8ec7f0a8fc6085, 0xf5a919e83a103cc62a73502819fa163494d902d7ceadf613d7e0f7b56ae962d, 0x168506fb5ae2170331ee463708ad0124c50dda86c1ab464f13711db7a2f6c4e8, 0x65064ae2c2846b1e8c73942bdb1e2b402eb97a393e18a600bb8edbc8d029af0, 0x1710ff94c079aec5589d7a0487ee074ffa49f880abb14d9dddd2739ee6adde2b, 0x2af3554c9bbe595b39616669ca1984c2c143d16f9ee9ed316229b4f5a0a0103a, 0x22964fc3479b20e70b3e98306ec30bf3d5128056b6fb525e100f684366c3891a, 0x25de0b4cd61c81940d0fea87d9389eb473d469f0415eefd81b56d2048ebacb62, 0x1fd575da1c5352daae237b0e8f76723d44a3413b49e016ea12634876310edb38, 0x533b56af329976350645c7cb7fa29c1e0c3b5d880e25f5a52774d056e9658ac, 0x167d885c645bd9cfb4a2d63d57268000b73d88398616fbdbe56f231b8b2bc825, 0xcc2f243dd60cd41e04b2430c96abe40f21e3fd109e7a1946131880516bf86f8, 0x341715bcd52b75e84c60edd47292611c4703f8f81abb45f58f86ff7897eee12, 0x1ccc6d8301ac14bcb7d8cb9feec228f9c2eebdef5778fb88e69571374f2c2481, 0x26d54cfcd51f1d76c8a6f67f37dfe4cb5365e33017fb4cd4d5aadfea672b3b88, 0x2445313440a20b29650a00e2efa7432ecccd218a8b111a67e0ec28c559be72c3, 0x8287cd7099b718a473e3a2dbff7354e6f56a54f860d1533b28a0c03407558b7, 0x26c24628356a67c0a450cf53f60453defa580ffbec5295dac6f26d87ca67a71d, 0x1d1cf3eea9d6f23c1722071241367ee8b05560a7af1a825fe788587692091aa4, 0x29a6cc340dc509321a8db99a1e4a6f92ed22518718e050946a211b9b0b035091, 0x22b0472d8d18e2207c7faa819e646aaffec0283c06cccb04554899c28dddb385, 0xaca637d3f71393f5cb5d01e083778f519b821ef37e1335d65d14b2fad555568, 0xcc06cdda9bbac58a1e162ef5c910ed9fa9861163b5bff627765b6de8e1e9719, 0x21c547728fc964c17b65a60176da2a1a8292d0d503dc16a5c60513bf88863c44, 0x8512df52d8a94319bcc6daa9f814853e4bf58f57d16f57997eb61d6a19bffbf, 0x25c0d9feb0c02a64b753bca57cc68248a5dec4149be2b759bddb53b6f7593c39, 0x2352d3944fa61a2c4ed5c84ec318fbbae05eb102075612c26b0f38670e69995e, 0x24bb393dedb3f8114acdc77cda2e74a97ff8cf89d751fbfcd9f52a4287441763, 0x33ba091bc665e268b65a8f2278ab3113f8c4ae9b6a0baccb4b840969a3b4f3b, 0x21cb4b445e8a579c73436f6e08b6b2487ad0f5c4706f0ddc9545fa62ea0224b3, 0x4a925ae34260dfdeb17f5c793e4b672b8f5c0da69f16bfb29403926e8d7d50d, 0x2df42667610a6bc6602aba26746266877079dc345a79f6d673d64fb27d7ff499, 0x179934386a6423cdb3a10950fb65d1c7776812ee19c813f5a67202bdf36c9807, 0xc0f3cc0643c9053e7e87a1ed590dea8a70e6d5ebd907543c9561da4ee9fcf63, 0x51a858defc040eaf0847bc5714fca3d63775709d5486a995e93336184fe0aa8, 0x10a0da93f5e24e02e1da3b703eece97fd3a08f43a0476cfefd70372d6274fa47, 0x2d7beb4067840b65456935fe808f57cc971b6fefb7e09ec91336103e2fb072b3, 0x13f1bbb6a850cbb536a0197c016a46723d7387e991b67d58a8065c3e4dc18c55, 0x41fd980971d4897e5e3f42f4342db10e517f639855fbaf21c0b9590b23bd8d8, 0x9636927f5b349d290067029f74050c9750ef572691424a8a0a01663a45c5031, 0x2af36e704001f6023acbe0757637f6cb0facba8e0515b0df5eb317a1dd0e65bf, 0x2f97558fe6f6004109ac4658609a6d2cd1b22e5dc099a2ea132e88087e72cca0, 0x23cc4c0f96eb9152447440a55e3a3d0be1abc83834d9fe0873fc9d714b0e26d0, 0x2a5b6bd888a8a36578d8625f5b77e527ea06db8dc1b54796d80fb1c7db293b90, 0x27220be37f223c82ef3157df596b7c3f21bcc03de8c4ab8d7f1d5baaaf638f0c, 0x9b92d05c05908c5d9aaf4e8d234481f9684066bec0f478a6f7f41e4738f94c2, 0x103686d84f6209572cdb829b7aa67962be01752899ddb717831df659c2e2f60b, 0x23b62723d58ed5c2c6ba818383acd3964cf39243288d591a4ba0803b15b48735, 0x18870f436ccb65a0e1dc5e6837248474ae52fd226b179221bbfe73f747eae139, 0x28691d2f0c336148b5b5f1c5dc06b422d34071705f9a33faf2613c907f3325d, 0x1191fc63b79d85edaca6a27d88e92d40d897cc0ad052136e60b5bd0a8e560282, 0x16680b82f6e755d8b419d1e303203457b5470d8dfa214d023579cb6c1d09a3b6, 0x180fd65f8c737e7e07fbd0e7646c1541c8c34f0bd8a1e1623a3a0e383ca42237, 0x6c7ac54dd40d3891a14b48e742a06e587cbdfb65dff4a955da9c71d152241b2, 0x2c65c95a72571373a6ab7a18b7f4392c1aef296eb581541d876bab6c3bfe6daf, 0xd9c0008a4f07214c24fd0e733864d7c57f4e13c040c31923bde3e9288552bc7, 0x12d3a04f3439bf85b6525221a3f314a2663b9b84ee290e481169dab2b0a48d0e, 0x2c75ef5fcee292d05dee7a7ea27eebe87bedfe6582644dba0fb5118cfdf255eb, 0x17c01330bb570b1ca9970d5872c1aaab8cda24b330e94a2c95d12549168283e3, 0x35fa265ba78efec1b389d50f1880191c35bd402977c50d252892c70ff3a66f9, 0x146a648e47158802e1fd7b6e211561de3ce10df63473c254ed2e3994796f3b28, 0x5c2f2d7318f91f0398ab541c72b9abe4cd4810598bd0afb230fcdca28f0dc9c, 0x1a14bac926bc804faab0ad62fa213583872294ff31da7306e8a092eb070acd47, 0x883cd6e7dbe3bb29320db1da117618ff9f761713b7b07814f4bbad71610d89d, 0x6f98d2bbeb45ad82e7624bc3e387a1b0d818fcc94ce9d96f4e73e80caa23e55, 0xc2ec98dc0ee676d862cc05b09e7d74389f6844ef462de336f6a8b693e568d96, 0x255191cfa833cd6a862ac869e520575e8da70da30ec970657c38781a7b002641, 0x2636c3de1dd779e5577de214b3e6c6351711e9cc1348dbc553be1c8d68b8b067, 0x6437037937218fcf4e73ce9b338baca0c3fe948c398cf9fcba25ac02e652956, 0x1008550284340174d1e47ac5a027793311c42867e3b718b24a4789acfb7d6dc9, 0x152b99159e87dd6e681aaef38bf7295419bb87db5f9fb0cbf37320ec726d448e, 0xd382ade9b281a2e726cb96db54d26f433258818753b88e266280f74d8dca806, 0xf544e2459e6a636d8da23834e317ea9ade7b2a07c4ab94c368da356cd884e6d, 0x2a6122af7c1cf2946b33735d2a9f5020cc5dd8669529e77d0069db364ccb08ca, 0x2bd710638fa09fa70cb0aab6bcde56cacaeb11aa9bec688c033ef7830dd0cd07, 0x17e172b03f25c98e9680cd0bbacf1933a942d834d945fb9880fae95d2594939e, 0x759acc9cb975aefb18a833ff4c84df8346ef63c4eb67e220b11b0f5350c6331, 0x229f41e153a4409fa2c0c7c75811813d8a71930da6c8b1b8827aa648bdcea63c, 0xd3153d6d1440aa8e8dc0bf1058667a18e5931afe24fa90ac1911fe322d3d9f7, 0x198a6f179f92ba427490fb90b8cf3455f69f02b756e98eb07d4601a52c77a33c, 0x29c2be07e30d93dd927e80aa49c44df0dbb5f0506e96676d2d4b1a91570bc7e4, 0x13e75b095ad21ac9d107b2a7f1e62088974240549c0bb4e7d83ce4630cdabdcd, 0x186d1e26c4e415c8aab305f162f00d8a7754cc1a7a4a5f2f318b7437465ca869, 0x24462e17b2b3ff3912d0e41f1750cff169806bc158648da822e1bc9f6212886c, 0x4c8ff3b9a174fc06d3b3302ff57c510ad38580c35f4e3b5af79e24055662bc2, 0x174a26f79f26fa7c4c2682cec14da70aed49fe7c75770f87a52b5a672413289f, 0x1794c80fa206e99862d7e1a753d7754f6f1779581a85201fd46a5bfb7baa952f, 0x25b4632d29770667d09f79c33bb2a8a5af66a449d6d39f6fdbe63c976e1ca11, 0x11adf7def96c53dbdffd06a85d63145f0dd2395063e8d332be42ea99ca368547, 0x1b928b7f293beab032350dd3ea4c4b48c4a04fdff082b4f542e094d973a399b, 0x281187bf98a4c5a6bf90203092c6aecb9fc2e561974f79f7481aa6d2991832ba, 0x247168cd8fc0ee2cc9fea561bc4e01ad3ea57874756f9d9d734a7fbc45c000b9, 0x23097d74125e04278e5fd0e14f52ee1936b901c2de64a05b2b80991a1f3f19e8, 0x2cafdfff6422239399753a96110feaa8a156264bbf59013f1d8195a30838e649, 0x1a5820280d1cc66e2cbb99320a29d80e7844576377636d8cc22a5b89838b5e81, 0x439af191c824775b86b6ae9cdded69e0ac524d2d7953bce65dc54e116546a47, 0x59216dce06bd797a98709ad2b90c15d1f9f78177f0ad66d50009725ed6864b3, 0x17453fd8ce97c60079f3d00aa29be8b9b90cbcc9a2161b7cef52c599c6286cd2, 0x23a1ac8f3a07c86e93184c5f082be51a98f706b6d1467dce344bfe266397ec7, 0x13b7bfd3ad519190d49beb27b00df30991fad40a694ef0df12e89d617263eb98, 0x3d37546147228b5faf95ba080b2b40226a58810463208b9b39566f073163dfd, 0x5f3bcfb8ddc917835430a22e50cfb51396f15242a5fd0c7e3ac1538004d19ee, 0xb75558f92567fc1ec54e9954a33efafbf51866a5894a76552d1349523cf65ff, 0x9415183df1031dad23297c334ef7a255819b7d74365be4f353a88b427d90697, 0x2dc2c7f19b5024315cf5b0c76546f9432e068efb50dd37c395fb8744771c0e34, 0x115a5ac148ff0c29901220bf5b9cbd3d5de9a902c8c6efd02f7a92cb1d4eda5d, 0x1ec78942eb0fed168fbe55b730675f3ddfcab69c122d9f6ca22f7cfa72280ba2, 0x24bc460c697257bb30552b45ad37313987739e25079c2842dcdf2f974f9bb686, 0x278a2b29bde54b5e1d0f87216de48f51d4dfa284555ebd7fe7f3dddc234d1a5b, 0x10f5c4b02af508777c4cd3cd0c6c11f4d679fb3b0d7a52698593bf50cf203cb4, 0x2d695324f885445840f526b71e519f295cfb0a6e4f24145f952d8baf8572f573, 0x18113527536434b631fb3777ac733ab250ddbe971da50f13fa6cf26c9e05bd1e, 0x40730e3684e391d5a166b5487ef2fa42a9efc154629ce413c989efe2c878592, 0x1ebb21dae6af4dc7d80bd2bb938982c215ca124b15e0797883af2a80adec4a12, 0xc68022eb63cb3a73859b577b59b17e6f836176c595c6a1fda124a05ecefc10e, 0x88f4a9af5d668475bbaa35610bfac5790e103ef53b9a1b3abdbbe293e56f5ae, 0x1325e2e84e281caae87f905df719eb665173fc82cfce43743eb3f0d1fccc98b4, 0x2f3ea3a22a56db970cbbedaafe9d85f14f02456889b64ab7124b2479978ed3ee, 0x55564b7831acfd8f46df96ef819622a4462bfe8281b05e95557598167ee9f30, 0x8c29e9a22ec7f02449273a35136949b73de66834e3f015f4689043aab341015, 0x212a65492c6e2992484160e5e2f6fe8fec7581256613b05b8cd4237ea596dda3, 0x20e629bb5b6c1ef07efa2fc1f8f63b12aa92bfb42e38e48335db3adf267416fc, 0x4086fd6c2128b11a5aa58fa2a8b25ed5e57c5b6a3df6534839a817299ce7713, 0x65245cf59148ef3cf923d2866e6f1f61ea54e6a0e650b6ab8c9bf94dcf1e9a3, 0xb6c1b1badc00e60dc7e286bf1b76198e61a063cfdc2630f7565064af179fa54, 0x23a3829defce44de2819dbeddcd9bd17cc1cc24d5efd94345352d153c898097, 0x1b51d50b9f2a1ce039e1bf33a4395f693e12cba9aa5ceaf5fc0c6265ea446bdf, 0xada2b8bf069b0a8622be85bec5cc1502475bcc995a5687023ea33d3a949382d, 0x832620a355e131a479d163bd702e2e96aab3688f818b54ad378764ae1a2d3cc, 0x1dd7cf51102ea8b1048d3dfca649308d59f65f4f370be00726cf5c8e3a72fc5, 0x22cf9eadd9580935f02cd8a788978c53bb4cd780b262c7aa0beb67def5d1975e, 0x17e3b5605516db11b62512348f8e7f206c2e71fd57a7bd9fe96832af6bf7215b, 0x1aad1cbdd185bc5a2bbdceef570edb986520eb92bce2b265ab8864c51ac489d3, 0x28d5eced9d9e5515d0c29b800e333bf66662a8b5b9839856e4094222dfb4e3d3, 0x15660d8c936e1eeeedb10437c4cae544dbc1b9be0fdd639feffd0246a313e886, 0x1f5e8f3f715cba0dba6f1271e1cc8940b37305246fea62aa7e16c301c89fe3e6, 0x3bc3a131bcea5b2f4ddb5cd58f71a92c54973da67f3b6aeeb9c2b2b1ed32628, 0x10989c21815e815e3695b1e86eac0ad5e68468f37066142d042d951afa013609, 0x13a14796be2c62bfcef389accb50952a46c7569e009201965f13223a77feff88, 0xf307148b769d5a3aa0d70b54514d1de5098e070dab986c02cd91005c37a9385, 0x1e720c542b831a978860eca880ad522210565a065884b82fdd9abaed3d224b99, 0x136981fc4f37a5ddbd57a28438eb003ca7ff0109b349c2b3114447bfe6420d5f, 0x23c0f4dca797a7ffeed6185b6270045ae960f80e1ffbded2349f7857defcc5e6, 0xcadec3532eef6e435656436bdf7ec56853edf2ecc1dcab33e585d7f9f33f215, 0x1d3fd0cddca96749c0e76b1094747f66e822bb07a1a011506d198eb80b831421, 0xfa4bf5751e05cb1879a7e9d1be18c0cfb070ae2e54365037bf152b45ac085ef, 0x801c4500a511b5f9b6f0bcb6deb2d0898a3ee9d9727cf027bb17bced7992263, 0x13b257c8b7194f0ccfcd859b03f7451cde8314798115ac1de5981ccbeea58e56, 0xc8e8cb135dd381120087376a03c386e67871000da2b1bc02be951330f7a5670, 0x165762ac8bae66f3f3807dd925a4334e870a9b885628cb7bc0b8b7cb941c070f, 0x42543556c325a58e3ac753f4a5aec40d3c73926e9e3b0a62b92a5b920c47cc0, 0x10884137e86600bdf06f81d79045eac6c34f58ad687b799c849d2d12afb2b005, 0x243aa9a7d3478eb73fc5c1107b39becd9808c6e5e45533a3b267cea612a3bc10, 0xd56cd4f582b5719a3301be7873142cdbdbac3901c33c71f490a29f198cf837f, 0x1bfb79eb37264d67c12bc4b214fd728d6adf84d02a08165ecc982868612e504, 0x82b38037b96a47f54fea54f4f851430f7c716766cb58c14f3db8ee1daa707b3, 0x1d92ef0b67d46a991de603c82917a32b7b0911408f8c8ab283bd36fc1c62ba78, 0x1e85bcc91932f9ca07b35984a41c4bfdca243a151441e1b758c5a4c0ae6ba181, 0x25e30f6d84da989e0d4d0db84cf57739ed9d1f354c8e3aafcc01b47802c57a34, 0x11ee0dd308c65edc88ce2ad2edeca29b6600ffaf309fc6c5e3a3d6318ca98c83, 0x18f3ca75188fff5274224cde36c2d85211b094c20f53d9e3a4351896e3d1a1c0, 0x5b6b21c1f708032911b6e0dc4e57d1e8edcbdd144102b28c8617e53b11e4e7b, 0xeb79b07bcbdf2d2258177bfd15ba43bc56d9362e49f13d002394f6c635f20f, 0x1d963571ce7313a17110b17d64d45001b36d20b4869ffcee44ee578d23d6488d, 0x28c45144eadce345f87378b432bcf30e9fdb40e2ffcf61f5b918e3ad42ccf153, 0x2776530993a11fb7e5222ee0df505be5e57cdbb6352ff7853e668007714bd718, 0x210a7004456a4c7e56642e7940230842fd54b7fbdb8c337cb1493561e778fe8f, 0xcc1cb51986ab1a0f628c12d7c6656a9d8495db91d90e5dae8f0dd264d9f19ba, 0x13d1e0cbd9e0f421626c8db09dd24df92c270688e702495231d057c7676fb1dd, 0x1c2b5ad45cf4181611eda67060a0490d8d6ae3cd1b10a1570b00bf0bd3a26e09, 0x25edc11d3b5e6e968ca9a27c340cf9350744d28920f5762687d2d31dfae14235, 0x230c8e7ac3ff2b39daeba2788119cd58a3a90a9c24c3ed821eafd08383f389a0, 0x2937cb33c930ac4be787b6e890e67f8a08cc92c151f7e673ffbcc27b25cd0b1f, 0x28a3ac677b6f19ace69e3d06049557fde2a92476c199e1c819c907ce456812e5, 0x2dec341eed7524a26b7b91bab300323347038c01206e0f780349e5c2ca247076, 0xe83c9f68c5feb4210d633821cc840bd1fbcbed87effde9f23d4403d9b8b03e5, 0x112fb21185598e785bff0f0f7e4821289232403fb2b31b48e7ec9022df2b7971, 0x1faa621f0c039fdc8024cbddf4ca817581c6e3f26bde278b13c34cd651bd8782, 0x4e3d26adfcb4ef7cc322ee557878606ea5b537fa1f880445c647e8d12c98c91, 0x1a70c2015bf1c5dfa637e8debf8f759e309f46c37e535f0c64486995ea5b9061, 0x228f60de5b5f3ae8a52bcedecf7b3830d5b6879fed7eed95231c674c016c7fea, 0xe4ddc512fdf839ac48b7ddb03e765e9cf5e320745572a5d4f70097c1074406a, 0x1f8e572e2e0b48f9b6bdc474210a1c8df655ca5e19f7d13b5a89a185f3a3cea1, 0x3a183213151c33d6c58b6631cafa0c05300f75deb9ff971fafd35441f5cac78, 0x1b7da980828048a7498cdd2b49ec08be3bad7d4327c9754b5e3fd674e02c8286, 0x285dd9c3bde7c361a16cbf14bfb0b5a78d8f4ce4433d41f13a372e92c35e21b5, 0x6f952d66d60cd18949ec08a5c203707ff452e3df32d50a4e221e72a793cba06, 0x2f6843da088f675ea773a0377ecfcee33c9601ada5b8256b49f2c2259ab8abdf, 0x1bee4d9e168ac606a73d79a990c590900012aaff03291747553781384c28d800, 0xc8c85c0320d6911ab65a50deb2b2825d3e33921a46522e54ccb6b806e55f192, 0x119ffc6ee4a000ec8b6bd175bc99718dab6508e999578d85f57fe22946120d55, 0x300d0e8681f117fb491827fa12101206254ecfe5a70b08716d1950b6635cff06, 0x4f424c26471906086dad2de5452b3148a9480a644e69b0d2c6a8e3572070181, 0x2aeea0843be6d263700672c426e9820c16f096fdeadef7beb1c423c04eddde55, 0x270aa0ae5c5a5ddf685bc432b47c996eead9eb1ed89a25bed2bb358cb4edb6f4, 0xba4f42fa43b005e31fe2fbf27ae1df017ff6d11f27cf952436383ac901bd17f, 0x189ac9f58d25991d10ca6233b1ad8cc583cc1c2479967904a801f92c4db08818, 0xac7c203b5b06e4b6f56de45fbd9e502d79662b3ef4c122f73f7a3383fb52af5, 0x2ed482bccb4a7c8a75dfd31a443b74d1e4ef522a250660344c21a8320a478cfe, 0xf4eadae92ccf071dcdb7d67241db82286a0b53436225d8d6d06c3094d032be8, 0x2f3ee4a76715b3bc3feb74e528948ff152d0b69cae7aaa30ed3d254ba8931a73, 0xa666ccbfa6ed09c57f58ee2963407236b8ebe1935729e811689b398a9dd7b40, 0x2abf8b9e553379c8bf68fbc67a67dee5a22df97393673145211d0fe9f5efca24, 0x1e0e4a52a2fe011eafaace83d54b92e6d857634b4510101958e7d80686ee9274, 0x13ee73f6525acc520a0987c161e5195723b4785d7ba6a031c8357fd55ea7540f, 0x94ff2c24cfd2859ef66c4f62696fcdc7edb93ab92127ca6227a6c029de19e11, 0x26fdd4092be37092fa13e02d03b3c93dabb7fb7bbacf3129344061909556cc7, 0x60cb0ebf20906790098d260ed00a75704e88e33386f43e272154888d56fefe6, 0xab0fa8ccd280804c537d2e09aec4c1306b1a7b479c6623e9128364d9297f7dd, 0x13dd22e61ff5e9e3387f90488037e06c48cf9ec7b8fc40b2f78e831e977f3d13, 0x24c62af21d61cc277ed3eecb6b53da40f824a6bc8619f830a5a5bf86846c1d41, 0x2a025c7888cb0ec6a2338a4be571a7c67bdf7f7dcf5c0775b785a2c5ea3a0c60, 0x35c1ff077b016b8069c044a2bf5cc09803e94ee0110c17a5bbe594cbb270e14, 0x2f296505bf1353b23a672791a4ee325a28a9e1b21ddb02278e48b7c8fd354d18, 0x13b16c3cc0ca470c75bc2ad7bfd6cbf0b669c762bf0411010099c1162e26a9a7, 0x2d3c900ba9a9d5494fced5d70e8a40acb68f47a0bd2521f3813ef831f690f5af, 0xce9e5f31feb0a8d20eb1aba890083cc3092738bfc196e10db8cc34b31f1af2d, 0xda413bc6c64a52d068bbc66aa2517c323ce2e00ec365235cabb2235c32c93d1, 0x1897ae1a23df0f99f8c1cd4d480958b959d327816e6a79d83f64f11f29f9a26e, 0xd116dfe5362123684539d6841825a764c053dee6db6b2bb5d35966760a232d0, 0x21e25952e98f9615b696b4cdc5403cd7cc432835a8e78ac727a64674b34e4314, 0x1a3dad57e7ae205a48f3a024984c4da0501b544afc63aea283022642d3b74528, 0x19bd3efa0a6092951ee71b313c1b6cd2b016f1decb5b51d8dc14927ec770f186, 0x266efc42a30cd04d6778f50a3fbd5c51dbcfcefb6eb400f85a7a278ae184e381, 0x1c8d90d85ef64bf4bedde609957ff4dd007aa05eb2a2d04e07b03013d7c90b6a, 0x2ac06d4cdbd30847a9fce14472ae320e1f36252687227e082f213b219e72703, 0x522f2c9b0876d27388b8b52a51002e5fe0669f33da07014dbb8c0a8e29e85cf, 0x26bf744624ce575461c466270c3c7cb09ef5c0b8342d865985ff22d17b47239b, 0x2375100f868f06ec614e0ded6d99f714a1b3159f810493c846eec25cc2df2854, 0xbf461146b46b3e73e0edd4936989f404cea1f9d9a058297b94cdeac7758325c, 0xe98376ed641425e2716faefd8ed7544b173c5a3a66936209e4af629ae6771c4, 0x2f9c4d96056a1391d89f28720a20d0a1e7cb59a5c93a87dfe6069b5f4eca2710, 0x192f200bf3b555bbac797819bb21b990b729d65a4d28a27d6d3f00f1a02aa23a, 0x2bf8984b5626accf10b7667f4fdccdb7cb605a0ae34d6d204ac1cbc80cb49126, 0xbca21c12464247244b2a19fd30fed65f8e3abbf8335b49205c1fcc1f6aac1aa, 0x14078d4ee11f463471a49516c3c85f9a266f8c40f6d7b1f86b1d1935b09f15f8, 0xbb8a04ecf9f98e1697d330e922d0c8abde0000b50b5aa57c5800d52df4de011, 0x21526121c05e09a0abd2ca6efe5b42ebf7e9115382221caaae628a334917b035, 0xf6a443b0e7ebb0bf777511512f66c5e5bbe044c9665d96109018d9729c84f4, 0x10092751e94fb6b5e49bea158a014bd99078542458af14ba4cbd9258b8acd236, 0x29389903d0d3c29a173ddf452a66b4abd36efc642cb0b57d8f10819d5c0f5f4, 0x2b6d20e6cc7ca916f542668724179d8d0ff0741c3d51f74545e2139112177376, 0x2900b4277fb3a0ff83b4c58fac79a8861e305d5eb313f2cf57dbb05939036558, 0x10afdc0066dda9b64bdd43b86d0ed62b9b3938007cc50f5699250240cd2ee1a9, 0x301ed1566f5220e17fbd4083a57bf42c12c15a6647ae8103edca272fbd5f8f11, 0x27f1833229c3a5998686903e824bb3e3e10bc969f1342ab0d02de635fddaff11, 0xc4ef35ff9f906d0bea489d201c210c53abbd47a151a9e4efbdb922029fb64af, 0xba5ab9246af723bff457ab8228be06484af3e3545dbb4c932ca49115f957d27, 0x21c572bd4264d821c5e2aef993006499c88b3245cee9593f02c250149ae87ac0, 0x4d1cc4795008719326f8106c9ce9a4b0dde4f4de01d2429a23511b1fd0fd171, 0xa379f7d6eedca7c4f07bb5df2d8ea0dd87f1eefe2ac2271370a7f3be27065cf, 0x28daef7d37a43f2ba44065f2213912eab6c8c60e3f7560fca990be0ff4639720, 0x2906e8996458504f2c044f053c4ad24d35b0e0ed373b27e02e5235a3d34f65c3, 0x260738b3d0a746fb0612dca6db53bb968c552213b2f9a134df341baf3e1379c3, 0x5f177ae8c6eec8b9712cfa042776690e924bf422430011ef27af82df0abb237, 0x26811027f445e86c192e8ae371d2e83fb73561c8cfd10bbf5b29a77f56b1d95f, 0x12def5ee59c1b4a96b50ab3de36175640cb70363fef89995f34926ee84be514f, 0x69b58a6aa41994a11cc7dd3a428f6c4ce621b5b06793f5e95b4034e2ef7e9bb, 0xdbb162fce1812bf2a16aeb6aac7f1737f2d27660ca4cdf6e79121fbfbb6c5e6, 0x287ba84aa5087d8cc9f89450f1fe391cc3a84f28a24b261cd1dcdab039a309f8, 0x1e878a1f2fc77cbe232aea7683d46d8996debb9cb06af003849fd099e9c504e9, 0x1c8d1ef246dd75f42de13c5bfe069c08d6af9943cd7f2336f31c896456cba2f1, 0x74f1a678cb029488356dcb477a88303d0ded5f2d5ece54769f15abc1994538c, 0x2766e558172ac70b1f3dd85f4c80517ba6e18556bf51d20f687b669e7815d47d, 0x20636353e29facebaee5f04ede42fc3ead0d07727ede7a80af1c505c6ff5d534, 0x11ed975aa3d3f9bac1e0bab123041671f8db695fe07601fe5a71e0fcca916b46, 0x18100160418fd858f3e4fe8d5d6b80e2ef376618bfe5a556f24bc3247099c441, 0x2abca18d9b3f2522e21ee57a1c6634ec12774d041e65ef8430224cf31f960f14, 0x16625241533c582b9b57f6e0963dfbba9a7026139daab3174fbe71b0d9522c8d, 0x1bd3cf1bd3124abaa627850ff77a6778e8d82d07ca24655d94c5a27b57c780b7, 0x84e7ae8a515bbe6fd8370e7c13e7d09835c3749ed21c2842e7c46b4bfad4e38, 0x105b64fdb0f02988732b58e06db800b2df09a71a5b5a165ad2011ebf48a6447, 0x43ed436d6b9af567aac7e24206137faa086d188e8444cabd5234983904bcef1, 0x2451cb7a5dec1f93fd2b3f8b97c4b1dd2fce7c87d0a92c9f699bc550032a0a7b, 0x18f37c624e96ef9c494d2f016bb1ed956ef951f3b57420a46c7160bdfaa576c1, 0x1bf84d6d70c748ccd981c21b19d555ce7c3841f34220c10797af76f62e258980, 0xbf9b051f2021f38a294eadfd0811f05c08852720bdc749e1f9a62720f62719a, 0x19f1fd2199e3aac88c7ccd7dd858d158c2ef10e8236d2cd66a70a3f0d187988a, 0x1af9d63ace6db7a8ae20a04b776fa39de34b795394231214317f036e5954eea4, 0x1b3a2d08d1c3763b7678b9d9de1fee10cda80937fd7d74f27d6e550386f5443e],
    M = [0xb1e797eee3f15b88ce3a1fafec88da1d6329ac3c34712db570de886cf569098, 0x2fe429db8068e61b82624f25766273cd9fe6368ff097eab97aaa09be4c630e27, 0x2e750867942439083365d21fe760c7dfec9e3593c67de12a4255c6b01648b690, 0x23237985a96b177ff7c01486ab0d603d29991b8324abd6b07dbb96f5c21ba17f, 0x15ccec857b25934ffd429af92c910db31d00dc1c3fb83745a31d8131ea5baa85, 0x17102ad2d98043e5509e76c331e6b22d5fb62d074760806aa675764660eb56d2, 0xa4ecaabde9d1ea11c81dafa8d5d4869bee7ad0bf4eb78397b71b8f989cf9812, 0xec1821648fddc448a1512aecc8ac37714923981940f5542737a468d4d887c8f, 0x255a493aa4becd9d137eb76941c4120784c1233f6c5fdf5d65c0832af543e415, 0x120f44670301b1435249294d9833d59e01682af4c8658719727678fd9ab7ef2e, 0x1abb95b6e33243a050e563b5c4fd059de5513ec28994a6f60e57c98d3bc8f586, 0xa5b604c958bc90071ad10618b1772599e0c8dddfb641131fef39daa58a39923, 0x24e82df5873953792baca345b7c19f61039adeb1190592bca18cf4f907c1a6fe, 0x10e3349eefd3a112417e110fd9e832078e54b5f4537cd018aee3dfbb90541581, 0x165adebe00c7ba019499018c96f5c5870eca5679c90c843d9527184a525fcca0, 0x1fb81218feeedf4e7e0e33dd8ecbe62d65c6b7d4233f32e073571ff862d89c3, 0x1be2802fbea51003aafae82ff4499d1158377b108f8b020c82b8460a8d603afa, 0x418081de8c2958355a1e45e28ee51ba2c66cad04835f4fbd81e696de6398769, 0x1f3e937ab29f3a88c6fe438698a7198a5209aa6ac9f141319f3bb201e7fd6716, 0x113e968769b0ea32cb7b5ff70484aacc96f13dc2827a8e5e611695e0797fc3c, 0x110d213a836478aa301bc1fd4edd388507d87745b3abfba5bf282afd21f7242a, 0x2cdee0c635a4fcd9549f0f91b4f4a9b628aa7319e2eaa094a693b38b5cf9a242, 0xd60f0585755d48577b465746de8e286e49925150f1784f29fb6b96dbd8f0ec, 0x2168dcf216d8369a626ccc61453236a389d02519f3052e87eff9ccb8aa299c46, 0x3530dd962ef23dc16f79b28c1fc1ddafe9458be15174cbbbf3a806de5f63cef, 0x1cedc6d4e1476741c1099557e58e642c42892aa36e2d0a793f670781a21b0dbd, 0x269c8c139a4f61e16bfaae9e8bbb1c69808c9071083b0a339dff9e4904b443d6, 0xea7bc52503e2039d277912e022fd6d0ded5bc687c6ff97194976f3a28bd30c6, 0x2180b9eb156eb33cad1aa750ea0fa3ddbfa4127296e497f86e6441e052a23b45, 0x18cd1471430adad31e45b529494fc8a7e319bd2fc0619c99207dfacdb657bbf7, 0x18edb2d105bb53b768ae0137850dc2d2bf6d1303a1f8ee4aadf76d8f81990588, 0x2c962d7d54a98c3a82a638d8c82450813f42071a17c6c05f470b44958f57ef15, 0x1f495e93014314988dace5e4e867f5109e09fa00fce87929d1e0ece95a449345, 0x262903f36acf0dc055f610397df0794fbc30927ef185c6356bc33e5c31faef9f, 0x1b7e922b3dd503e6441ada966c8b3ba7b908cb2b98b5fbe1e4c2fb982455baa2, 0x1a88ae2fde12ba32e5f4eccacf11c25bc163bdedaaa8824474cae5869e5ec20f, 0x23407728269c70fe712b021915059dc8dc2124ae648e2cb549fc76362bc2b97d, 0x12ab318626d511c23d28baa9fb5b5802e0ab95e3cb17aedbaa25f4d084cfda57, 0x1cc69d8f34ee877838950e20a9d4c4bd3e9acaf3d693aa64cae04faa225a2e1e, 0x23d0fa965e920dfc530b52670b1e32e2d5fc2821fc918c0844a003b7141825ad, 0x1e53e92df6c53ecec4c0de5b07dc4c9a0c5545f2abcc1fabf4ccb84a0a6e2c27, 0x2bc761185f59efb7b67bcf1d3e54da00daea067fe49e3f1d9334e5470438b454, 0x124331e0ecb1d9808a1d91efaa98950abe930c46fee5a30d5ad07976a5bc0263, 0x46887724f29321895c2ef8bc0cf545df773c04baa097c352a4165395cca786, 0x247460ad4580a18639eada69b904c91b19f7d4387435707696c40bac3bfbdd33, 0x265412a4e3b5560aba502d20ed833deff707b7d425ba3c09f3b6392b6f1f4339, 0x2ad06fc9f81684542e0458aae19c0a7c18be94f1de3fce6a3e5d2335a01e90e, 0xd1e34192343d66fc1b6591cb6a3b0602b0835a403c7227dbcbd72fd8000c6f2, 0xb565179887ee30e381631d8e5dd357c70ee2ebb410617d2321f6d8537f98970, 0x2ea6b32af37cd765d728ddefa30918902a21e19b291400854f56393c56d69460, 0x10fcb817e10f69f7074e64c393b807cdddf33c84a8b5cfe33f44b73fe18c0e36, 0x2e450d1fe7773c9889a0be55e44453bcc844c94b56fc0bb806eb9982ac553428, 0x2f421fcf54d77dd38930cd69076f9baadd3d3f1947371215a66c894d637e89b9, 0x13276081db012d1d4f4b7dd2d8a2f8a5180d2ecc33854cdd35f9ceb07bf40d53, 0x144d5be38d44c5bf8f3c5735334fb1a07c13702d86af39ba0b4220ec9a7568a2, 0x12691b599d32edc48ae99c7a73abd59e5b18f4bf773fa1051cabd2c49aaabf6b, 0x578a55f0fda29909b9f850c3d74be6668e4444ac691764f1644a626498218e4, 0x12e3b04924b2cf6e407bd26b3cd47bca61d6ffcf7efa1aea1c2e0d8a49de64be, 0x1162a56ed3bbbb4b6760a16a300ba7202130086da4d5588a70926423ff8c242f, 0x3340cacb04d5a85614eacc4be3352938baa3fc714c2575aa9d85f739113c50b, 0x2b1d8c11fc652c593543b6f9800bb7d0c9371dedb96f08bbbccffdc6cc44db98, 0x25c0f87c946f375e341f72f6a8dd63a94e86f4ad182715bcfcbf2b28df6b4a0d, 0x543b2bc66f3b2d93d4c1882039ddb37c70c0b437ac23ac5bb9868e6df24485e, 0x2dd117218538e8acb0301eb40adfa2435f5bffa8028ff52f96a99d77fe927066, 0x269b06b31e89ff132daebc200efdc8ab068136fce65f2fc55a1dcb939b7fc6f5, 0x20d4401cbbf92877ecf616d7d28551cb0aec552fae9518dcf9218c38c1a0bc90, 0x2ee2da24b7f8e7035fb73b08c3414833ffa38e14b1faac198a860a5767d2feed, 0x6dd89fabf92546847b9c13b3a36bbc7e679c5bb0dd785403f3ff49bbe61c8e7, 0x1360f719034572b59410c529b62a62aa94565654597e42779f33400f1d17d652, 0x15ff827e034c02a90767f0152840e7fc6db983e496ea0519c0ff41dea8180628, 0x19f473e40c05676d5f8d51e11336e9c65cb32828c397cc8125f1dc667b6cadf7, 0xbfe6fc08e2a2e1b8911ae065b985388fcd105a490a4ab943b25558cf3d054b6, 0x203d9ee6462a586914fe7dbfc1bfa29773b7f9b3d63aea4120c601129c16660f, 0x1b912abf2e1649ad4834ca5b2a3831cc9c207d4d08e4bf274a79dca80e52fe24, 0x62caa3c9fd39b69864faf701dc8a4588571cb31bfd5c9c3c59dfd97e99f701a, 0x138c03a2ecea183cb8f265eecd7e93275b0bb98297c1545a72197dc6ddd9335f, 0x11589959fc2493292fb6c50730e74994ad7cd6d3533c3b00a57dae833cc701e5, 0x17b9facdbe747d7c5163ca00e3b0b825d012ed4357604e7185750d677c6b357f, 0xc603d03f92860da8a68c6dcb1924d1a45099aea50f1a362edb2f2a7ddfe90ff, 0x5d56f0c844d169248503135e4deb9ffd6329d54cfceed4b947d78a568681147, 0xfcf3a4d9c6c3392de1bdfe25cfb86817ecb80c51be17d47f79750201f1fcd01, 0xc182e438257c4ad7e7b79c3b68d60984e507ac597cb47dc31d913a7a540fd9a, 0x25a1ecbd7e7893f646f35d3e07ee997c94354737884fe6c26ae8155760db8aa, 0x20135ff263867f708ee0275170cc9788689c088b2933a361c775cf430748ef1f, 0x20e160f772998a2f7d0064c7efa15884ebc6d8b71821cd5336e2df14341c95ee, 0x150df11291b680e3ba925a0471c7fbb30e704ab4b554ea5d8c07b70b2b96202a, 0x17572029e8e897202d0e65c2172c571d4b91ca856e7ad3f118ad922127b87054, 0xaff15650b805bff6f8b3515d5e29cf914b7349af8924e796009f8a4f1b7264c, 0x1a918fc117d9a6445e363ee5833dc01411034b95384d98eee47ae896f92a7d67, 0x2e5618411efea30cc7de310d4872597d087c1e122e02ebb117db0c2dff04fc0c, 0x23b02d00fe2634889673a7d04736fe15b9f62652b1c0626a19af8d6085d70822, 0x2ff4d0b8798a82667793533730083c25223d589cdd079362f1e8c2e01d54476a, 0x1d897f60e87fce5ceed8da7f2f4a63fdee7ff9dcf179c08e05e9e5cdd8238ac7, 0xba6d4ceee2182d3f2ab2e4a3ad08fc31f7f4cc0fec91ad53e92bf8ada3e278f, 0x5ce94b8e9a60b28947710461d87c7757246266ae8fa5d3af3ea81776b5b8c07, 0xc346b046af03cb9048c29353e1107d6b75e590bb2d422ea83c09a5da1ba0c65, 0x2fbf8cc6ec7efb30106423f2e67b0aa9403360e56e88b6c5cbaec34a80bdc7f4, 0xd064e72449efc11d1e90b97749de3909490b912bb1f72f542f41d62ab2d847a, 0x2a88e0c35617665f3cc2fc77d90afc7a8d1001c71debcf2733ca0c71a19e1ea, 0x15eeb3e0541bcf010da0c47adb12f6df540b974d439c93e19ea4d02f9975d446]).* from "../poseidon"
}
