// generated by tools/gen_poseidon.py
module bls12381_t17 {
  import poseidon(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513, T = 17, RP = 68, IDX = 0,
    C = [0x13100d2b1511c87a14eb5fd8412a134abb770736d90f135e699360b9ba852335, 0x103628dffd80639da7bfbe9c04b5991cf1a9512e14edbf0702608a0a823c4c75, 0x564d23ec1a0d163500e67ee3e6326b724a7c3be5cffc7a83352f80d0f9cf457d, 0x5d8586dc2c7e8798c150c297fd49dd0a593d94ff82d4b94ab05022e2d1dd9716, 0x223429863e671737f0b66fba2e82c05f67b866e83c6424828cb6a6f706d4fba7, 0x18af7aa33af938399233922b309ee71daaf941dd6b9e0c37d040fcc66e33e92e, 0x4bf7d5639ddaf5853cafe37b0bfd225552c14b3ab0f9be662ce9f11db701efa9, 0x1a079ceb6a193bd245d14afa882816e2a8d589e50b52b080aba383b2337cfbfa, 0x4e6fa92cade39d739ea58904566e07bac0668623c099193c1f7a06d28bf7e699, 0x2d76e76ce03301df761a2313d72217d36628c73fd5c78bab540a5a79bc962376, 0xad9808c971a32bb7309d3b3055b2ca9d1691953af7d00b4eece02f38a0092cf, 0x6bf698fad0e18eecdad74de28e1566d74cf0e6b33f79efcb700dd325defbfdca, 0x61aba0e55c43bb5174b842de76e20e5666698e584ade92337b75c8f0a7c711c6, 0x5b02f5952ad1f8dae3cd4a620169cc0a7b77f25e30d2ff383a3ce03f5019b37a, 0x70d293bcb3e9aac123b8b29d220a4d866927e41bbdb106be54a0b4fba03e205b, 0xaf2ebe2d919a7c350808f3e213d90c57d0bb92d25063d9c38c6059e9054f1a1, 0x2bbfb9a258228f960ea245b12ecfae1e373f84dff91f9cbe7ea664793f7f365, 0x5e5b924a78bd66c45e637d3ac88a3c477ea282f6120a3fd3757db84e45c1c65b, 0x1832b871ebf51e489a275016786ebe3ccdbf74c56f0db6fc6d223d99e2a214e6, 0x3778c843e88454fdd986feb1170668fe60a57b4d1c8753c135c03e703bc5a22, 0x4031fa88c303c1960f01dea3cd0baf9449beca4fbabae9ab96065d1c476ad9fc, 0x694e12abf98c70d47f5c0b392fd3084b92ffc894780393052839174031a7521a, 0x5e123dd5a643950084d421b5b0afd776a799f66573b6ed5f881037c06de1928a, 0x298b0a0c29a268ee9f04c98c8a499ca9a7753557a6c4a1ebe07cb5ac9c4f49f8, 0x224a8d1950e7c93a404d16be243282bd64fa8c9ce9235c235fa5a4d637c36adc, 0x1b0ec0758aaa4e75b85acded4818ef1646ff591f807569c16262bf5ed55d82cf, 0x1fa6bb23b75f7b48811716760ae2734e7c9a0a00389c56faa42827fa9bc69cfb, 0x29cf6c8933dcb6ae376c538fa504b8a1a1c9acab3549dde54323663f30f2f932, 0x535eff3a8f71df841f6d375b826f2bd620c8d267be518110bcd111229d84ac3d, 0x1e31b236a8053c32884b7db04439d65282cdd457073fdc41e2081212b5a32a5e, 0x2b6194f82c885ff1eea4289fd1f87c85cabfd989074ce24f1b1bc81eeef42bc9, 0x5c9a1073f133e5015c0b25d1c025787552f367c4bce93a8ff4ba7f13fb93ebf5, 0x785ce018557bbfa7aaf1f353d367814a33513a4a8f920977d0f33c2cb921e4f, 0x3bd146b61a39bfa85a7fe911b8cbc034ab96529766c16abf51c4d34c938ee4a6, 0x6ef2194b91e1b548923f87db7ddd7dfd72f666da51c99ad0ca25676391cd987, 0x4321850b3268df9b372498efbfaa748803d640be5864fae69ddf698317fdb9ab, 0x26d389480381c5d726b256051cb887182e27ea40fde0b37dcc3d0bed36f640cf, 0x6f2211f279b2e949adb48590129f2ccdda7cd9feb7df5676b6a5bb7c2e062b15, 0x2abbb55e5cf5d2dde7169c6947dd11f2f920ffe0b40679aa3811079875c8dd04, 0x308bfe09e759042b9473664ed617813990b0ce34134fd96477ed96e40768331b, 0x59b8f0413e9f717a5f2e68adc5fba3c0a6d14fb7b55a01aa1d5fc9294df65ad, 0x20fd3ff13d57a43fb25357cc87d23c9328d89e27724b9279468ef9c7485274c5, 0x2ad2ccedcb36bcdb2b421f3c67c05023a088993ddd827da18f9fa82cdaca0512, 0x4acd7946bf5036ee89d796751de777b3814608cbc5b182b3f594862fb84b680e, 0x2b091d7f683b8be3da5d3d2c6ebf42e71c17445dd0f9f0db1c82f9e1dc7ad03d, 0x1928e88d1ecba31bd99baf26ee3a59802b42c61b77336aba8e11e6f0231e1618, 0x289cdc4a3d9a47f9583cd4b8054851325fa905c7941f25820a461aa40bc4e648, 0x2f1769a690ee265f05566bab0bb0dd0360ce1048baeb4186d53f10e59ac826de, 0x65e210415441374e6c8a2cf85c85acec8730f054327ed746580bb48ca0aa1396, 0x40530d584a7689c03fde703894077eaae5d74a4fc2fd104dd383ae6e03d9245e, 0x13886beef760b588fb9360729a8f5947a3a68e41784a9c1b1905d98ce93a46a1, 0x54a052909e53aef45d133a1a9764644ccb74f3518b44bab09f3c40432a03be41, 0x2f0b35153a3972a830d1c668612df3a2a1a57dc050d08a4c046648202577c385, 0x62374c53cb04b5cb4d1b1221518668455eefd1549428acb2f8cc5c948b51f688, 0x5ca78b6d2440dbca0fff411aa0fdf69aadf27e72a1fef8431f3fc40eb63a23a1, 0x20ed2a166747334129729c690eb601ad56f19f261c0cd4d4a56c4142fb5d9f6c, 0x5d63af1987054f1169b8179623df9dbdd481c02efb9ebc4f625b4c9d3c4349df, 0x2fa3f1d8b977b3d776ba8513b815dcdd85838ddb75ff0395b55bdbe440edcd95, 0x17f3125775607aa6fe9c90fbc811322003bec9eebc8a78d7ec237f7197ecfaed, 0x164377ef13761501c26289dfef934c9631c0c1affa4ef4cffb86a7593068df41, 0x5ea078e0e4f7827b8665a205d2095687c22253cc41aa062c769fd40927854401, 0x40b02158a6dd386d8913c0be7ebbef36b43172ba890b201014d8ce16e12248b4, 0x445692c7f36d4d1d05f87782e9c082803bc7c87796e3c6cc3baa379bf1d40ed7, 0x6f586670db6d30b8dc0a07268e42261457430ea479a0f81d2702de7edb5ff980, 0x5961a4c51354234eeeea9dc18d52956d56186bf4d8a7f010f0f2e744381da0d, 0x60ed468a479a8cf34599c6f628e7510d5a380ae56023cb7b0b15c91fa0a23a59, 0xc6502ba6f26417e64be47becf997481c640d8f21bcfb9b7a00006e4fe715d0d, 0x693cbf64acdb2bc1f876a8e926141b1a254af933f23e9126fabb5d101d4c4b39, 0x525a0f7e88ff279553c36b496bdfcfa1ee373b391c62b497ee5c9bff0a054532, 0x6bb6a53f4230c00cd0e21245f9766779d80666727df2731488453f579b9fb231, 0x20e7d6e06b0e18fd37a3cd48835333dd7601e41921e2cd3aa0ff2b5119b56a82, 0x25b9081949df12e3e2d8ea04d97c602872a0ec44f0137dd798363a7a2e022d61, 0x2a2f0f739e5ce63b3d44c6ecf419323eb740841276471f241b6f80d31b17233c, 0x5465a8cff65f7203396f2bf59a6943d3558ec5b8f1bc714324e21d451c71edf0, 0x3ac100be154278304dbf0a58c20485317a32d35698d8cf835544622de53bf3e9, 0x21e833d8265328d13f43baa071faa8109199ab27825c82a02a660f8eabf65652, 0x4d4576d64ef33a5c8982a013242388f19ab8d85c88ed8bb52fd326bb7fdc5c75, 0x2fcd8d432895cb1edb6e6188fb2f34da927427767e0470482da373bda13e2ff9, 0x1df22a8f50abf0ccff0d6b7e48be35da036076e077d128923606d0885c8474dd, 0x67a74342a36106b96789ac8c5be26982cfd33a277038e7c85848852709326880, 0x5e7bdf45ca4e54f668d2a2577d582284e873c60e7e56eff584766f71521f2657, 0x29b7e66dedbc66a75333a3850430fb9043b008975754745c907fc8977cf7acc1, 0x6364fccfd43232db654daded7eb495a8e75f0cbca9c61448d7d177d95cf28238, 0x44d08cb295a965538e98cdaf7fc9dada8b5ac826fd3ab138e8000eb56890bbea, 0x44d213802cc907df589a7a935a4fe3b8712e6b4e16ff6b85fb4d4310efaceec, 0x3e7738cc6827d075a2a5d643b78f7e434edbc523a98ec02c0348eb6aa6a29bc2, 0x3a003b293a39674adc4cb1d06a64d28f80cc86f6e749ecb7fbed57f9b180797, 0x334f7e353288002250312a816123d83bfa8b2ffd866008d04ffc058444bc7dd4, 0x17302133d7f078ac636b6fc671c3c0ec7c31c476faac4119035f423cd411ff27, 0x6ce196574ddb6b3f3f008583b4a50d36458ecd812967f35e3937279aac5219c6, 0x6d984b2819e5ce916852c4fdcd913dcb1cd7a8c11069770d8b61ac23de350474, 0x2a7e0efeac2c2205bbea81ead226e4c4709da72d462454755ebaeed0a85b1cde, 0x56275e0dc578754fd387475f3166233a847cc7fea1f37551ba87b656dfb4dfd1, 0x69acc8d234f46cd4dc01a2c54d707948581bc70ffbb08f011f25061f8053bf89, 0x58d2e3a6c0044d183ac91df8c6d164125a63460f847d12ba9f7def12cae350ff, 0x3b02e23fd99b7aae9883be72cd96d8f58df2b643a2d59d995943b22fc3be7abd, 0x1d3be52cea17b552a078a052b0fd8a65b19425a53b46093a5ffc341df23f6f2f, 0x6c755c566ed39d5947e9c797522f194197e3dccaade12d97acfe87916293a933, 0x2035baba6e14d9a6b6c6885ae4fb62d5942c3fed6434e7cb152e65d29daa2d5a, 0x4e706356fe760ce3ef4f1a2d7e9f788b5ce5450e410013c2838f2d72f9fb4240, 0x5c4c122b1e9726058ce9327a2d7951e7aa290216f14cdab3cc3387f0dbbc1399, 0x2448453928467f4f776194c1eea272edd081bca25d68e84024fe77e69f7191d, 0x6b3dfe0d03ec79bc288c1970672f64cde206d87bdee7f8b256f8bf6734909c93, 0x7396a3aa3f8c1328658f7682e800364366e1f348969ce830d990a02e34a6978a, 0x2a92bee52051a7a924d0948b61aebf1650aa48d8d8a21f9b09df4057d19171bc, 0x311836ddd9721289d35794c6ef50522b3393f3886b196bf1874a9c71d2b80689, 0x3a17b069f85498479504b611f342db202f26dbd50e6796b253f71853f169e0be, 0x6001223b49c704d1b8af848f29e520a3de9565fc456aac1ac5e4a27f60d04631, 0x3c29015cbfeb9846248c43baeb3e19aa80b08bcaf730f036239af07ca93d4950, 0x229f181a7e1ba121b11f5675ce73f823179917f143d27f5f7b616c3dd5382ca3, 0x789608c864a59c0d732dd0cb6d99dd14723bd175427a3fa9d328887abebe3de, 0x17497139e1a5c543d8d9fa276a9834f4fa7a82ae9d0849fb2da217f27a370f9d, 0x1ad5e06dab036cb1114bdf536f54690b90aeeef08664c966d6ba8c2fd1b90072, 0x9b553bda7801d76b451b7b3aa9b1d2050d4bceb998074690392a645f5108472, 0x61e3f8f109a339ad549195b75199249c32cf733aea5057147cdd39971565694c, 0x1cc5ad75fe3e72dd92900b17ae357ece725cd266450299ebe26ab30fe408962f, 0x32d92ed9a3bd9e61f26f312c973f5c3832cc86f99beef3d1521356cd3e1bd49a, 0x1ad81956d1e9622327a6cdef2c15ac020fe02b74c1175b3ff89a806ff31e58b6, 0x437b2cd320c0b1860b4c6740098be06e4c25f7856d5cbd522bb0241ff769269, 0x1b0f3d30b3498be77f81c21d2f9b03349face56d94dfae1c7555cbcd32c9eb27, 0x25db7b5292b9bcfe4f824bc23932585827da6b17f650fbd218cfb60ce25dc859, 0x174c856ec5b05e6b2c698db72065c03fec140e7224ca032e24b6f93d5bc9746c, 0x3905da166979eebb1573fea42d799a15287432037045de5d7ff22ee99a887c79, 0x5bafe565bebf994cd490ab04f66f8114c354b5e00401bd5540024345c8cb76bd, 0x4b16c5a547a7c0bc412780387e26f544fd3fafd39f514df201738c9df5926ac0, 0x5da3d59f5125d54fdffc3b7300adc544ac56c9b8e1b3216d1514898c26698dcb, 0x475c39e3d2338a45a17eed26e1e9a8d70aa0a07aa7a9d4ce22500b5afddc95bb, 0x179e0181e8672be147c59c9b0fde796cf30eb41869b09495805b4358c292840b, 0x16beaab5604f04bf61c9c12aee3184fe0907895e33fa8cd75713a652c13958a7, 0x5270fb2c049ed47c1fbc33d4bf152ef04b5879d91435a12560151af57c7c7448, 0x597a4e52e1c47c7d440c36c6350e083c8858c11a153971aa0ceb4e66eaccffe, 0x6dd41d74ef6ab82708c3a8f8ec59764272405cec6138e17ea8ad29e5be803888, 0xfb9dacbf58f24a4441c1c0c89b009ed679429ec1b1807dca722dee7b5b5f948, 0x37790d59fa8b37697ff7c64a63a26a866334e581ace9918c7a5d527d85b7fc08, 0x726412ccee043a98fd53f3c6bca7db2f86cf2d0894a91203ee750bff8375e074, 0x4feb43b453a9eab97c45614afc4dbf9a40b6d03fc0c4ee18c104cfe3e0a8a69f, 0x1fffda813fa11779b0a21c0f4467f132472edeab5892fdb43bed5586890ec0c8, 0x37fdd7587c29c20559a397c0bea220311dc226f85b19b48da9296fbfce13dcdf, 0x151ffe5482011f769f61e3f2f568750f238cff659dee3c3ad995529a9b5244cb, 0x59bdb5bb695bfc6f27e5e74c3a37bea07d6a6444d6bdc1987ef656e2dbd84de8, 0x47e81249f09c58e57fb5c8bbae0077948328eec7f18d945dcd328883f835f251, 0x55b748834ee45173e161d42838f1b96394a622239c4ab2493e449e17082b6859, 0x48373a0ba51a4f8d103c13d14672b6b3b801fd08fddb848c3a387e54ef718b0b, 0x5d8209ea1684c098e9ef8e9a79172676e5836edf7e8b2bcb677847fe0edeb05d, 0x1b9c650c94ea251042c0dbd39b6d9874e5ec000cf80da8b49d1722102a4a2455, 0x650e9c58365b430e885cf358663f3ee621499dcbd3f1e74895ad37e20d337ddf, 0x3d3bcd7de6cf3ed004d548c8922ab7e14558fbe88df58e95758d235d2135a1bf, 0x54d61bfa1d94ee2c6a6faa32483cb68c3726598bacc9d9b2bc4bcc2e65f17ad1, 0x3451997db123e2338e022dd38476b07a1db4b95502f2a589a9ddb02e87873d17, 0x6f31a65a7e0fd335482f76f4127eb2f2571f27741e3979bd80a8623973f5e924, 0x5a10e8ffefcfedeb679fff077243e9741eb44b77d9459745a4a319b72f37927c, 0x52a88ab12989495d10c47c20a90b8c70e715144d635fefdd68e6fb3e39fbac62, 0x70f2c9bf548a8892a6553854b547f88b76e88f6f3ce2e41a7d5544d6494864d3, 0x220b3e7f643746f3449539c2f377133bfe78866dd903d03a198558c24c9ddd5a, 0x6c61ccee1af2142a4708de32eae04c38e9667785f174cf34a04d6ba88f89fcdc, 0x2374eb3568c33791fb2f842c06e3cfd8d3a888363eb6141003ecc4f34c686071, 0x3a8d3d6d998c8f798c0f0541485a8fa0e7b592fd92dd101b13bb52ba32bfcd17, 0x21bfe2fa4e2711047ae28a8dedd2810f41faf74d31685d1f11d92ef7dc500931, 0x7114ac5e97ba0e37b7f4b8aa650f6aa65a1a841fa3e7388a91c5956880875f40, 0x2c7f817b9f5178a99becbd627f82f771d7fcc97a17ab0d4fcaa0a266a3c74182, 0x42273991b2a0a9b10432166103d0dff69a06245bc0ef733964dd25babca3e293, 0x2ba1a55f90421561fb644eb45763c283dd888f3b80be349552e69068d4fff1d3, 0x59a87d27053c714f6a06f012075b0629f87eea335973b7d89501f0b37b576eb7, 0x11455c30db1dc56fd8858c9edc8797b650a047dcb661fbf78225a45277de5c52, 0x5d7ab8d5b068036aed4f11734431b0b82e75d998ffa06d061a2d752047cc15a, 0x447b7528a3e96dc979295563dec5922a15e9cba976db2c7f2c318c773ff4b153, 0x6ec817e137abe2aef0a211da1c3a738128f8abb489181182961f1854e6bb9fb5, 0x72d559189bc4eb8d88b4c5e4b2b7c37026bcdf57f2c07f5eb01c3f32404adb27, 0x5bf98544827a231f0c6b13cb0ebbb8fbc006901c14b05c7e6f78770ea6cbec1e, 0x68041a97ff83272b18080863d8251461b3da119f4faaaadcc857e36aaed2f800, 0x3ce15ce529bc2bd0022fa3ec82b5beb7438e4b5d1dbe4334a6b877f3d11ad940, 0x1a308e97f0dcb0f7e93c61d63d5675bbb594c5e4ec75fcfb148c30695ced5047, 0x2cfb1808c6aa1397a71fe9bf8f4da2a5a97f28a83a95e4a372d86fc5caa93187, 0x3d7305ea439d098aab0ce88c4d59c1ede5599193e70083248e1d8acd54b80c6c, 0xdb82a41e95e3ddfe00dcc6a3309aeb3cecc055808f7908e7266b226a5cf411b, 0x59f1777f8aba8d1b341de85c763dd3fdde9c196f0f980a7e4fa30283f9349de2, 0x5fe466e0e0a6c3f1a8e8b2c967d0ff665e17145522e89a99e8b33499f768a54b, 0x34df35c139bd8ca5d574c50f72a21a75e3a68e1e9f9dc83a21abaa4dbccfe56d, 0x3563e9071aeffee94459aa67634ae3ebb6077d60cbaea526e9e7657514a73b08, 0x32cbc0c2e31316016354621348daa82362d8f33bab25a9f3e7f82021b613441d, 0x5695d95e9efd3fa31df158c4090cc36cf743ad0ef8d22542d1555566064c6dd7, 0x544854af21e291710df084e4a356a86b5b3a968eba0d235456a76cd0c61c8845, 0x66c02e22bff41d1ec67feed6a894a0313389f6b1187fe26d477e7ae9c3f96366, 0x5042f557c354bdecc407f16e8383e0092d24fc47adabe7d20bc6a42bdd04284f, 0x556f859d1d152f4217bc426777251d341068d7f10590f82f750cb675a5453e6b, 0x18c37a0f5313341069e3f9ea22fd7cdff18e2e25dc3c7ab7709c0b722c542634, 0x540f497c08041236cf8f3bc91ce4c7906c55eae4e0c4cf87e28ad550e2adeba5, 0x4c0bb1ba092ed44446b91f5a2a8641ec6a8ca3c1f67a7c6b1bff0cc00cdf4041, 0x327b72206af07aa6fe868141a73dd0db204bfec1bf0744f0542c662be18dff5, 0x69cbb4625147ee5814a35e76d36f50cb976bb0700fdffd8bf1cde9815a8ac367, 0x2084c218176e5cc3400119f40ff2323ee5dbfe0adefce3d34ca9cc8e78be1854, 0xbdd0b873749d4d9140112f62a3f2f6b11de2d10e4c1387896d537e5af2facad, 0x31dbdc3eda606081dbd76b9c97cb4cfa2eae7a111bd6146f10dc82661e2a58ce, 0x1d97e0e7c1b2fc821dcb181e8f9423d3aba2ea28197f245ea463ca93d4557947, 0x15af3960b13b91717e8ed69c677405ca7c6503bdc77f7e82c7078b9b7d81db35, 0x1a984a9eb922694f4e0bb6300ad73050fd3fda20f141f01309382bd0c9390312, 0x181b2a039aab3c92706f4fc24d583aee1c472acbc9f0990c1bdf5d6f86888e3f, 0x27f46993dab9aa8bd8853664f6d1c23ae6cf887a0cdf3113c973769dea85ba12, 0x1d8f4a61dfcf0733556c4106717b3711af8a998ea99752071f7f3c05de19882a, 0x5cdafc7363f535399c6a422067ea6a66687029c9d07a42fd500e6af3300308a6, 0x4e2cf5a526bd3da3e26408d020f787bbd260e14e83a12884c729e1da79a5bb55, 0x14254768808c881531331c39f438bd8357d1caf16b98eb8278c9c153cbb84fce, 0x18997d77e155c024e7ae9929e061ea4d088b9223a817138526ca809c600d0360, 0x3fbeea153d081440a80eefc6eb7fbc547fba4f1eb9e89588b9c8701b3956199b, 0x3293300f3dcf6d65c40a52b06c950fa9c5d2d3cdc28a5b727a5cd762c3374467, 0x3039544dd26305683bdb1f1a272b3929c2f669ef197de67ccb652a07edc75c7d, 0x35dfabb2b79bd41287317414f2246a1b6f84135796c96788d4a444f5adb77814, 0x35794ff3deb466c645adcfad6fdded3094b088419b71482d6a875352563ed6e0, 0x2ae724cbd9101748e7dbde04bc2997fbb8224647d7038f29602f908f119d8047, 0x2d6398029c11e639d12de9c4c912b4c287d8668ad2b5425827cf6056a9520242, 0x7255e7521176f5a186c049fb046a48e52b6868fe9de04df2b7a2b9250a097886, 0x611b0bb3cdc69211a75df0ca5bf39b70d8b29be80bf3acb30fc0c39895192804, 0x56a37c9867ecf8be3c32bc5025103bfba00d609905daaf63bf42ff8d3aec60e7, 0x35b5d87d15916d50e9340aacd6b28e85b8d9888cb8cd0b9602705a059efbcffb, 0x34d03ffca58546255fd80523be13c2a2996820f8761aa6c417c684ba81351d0c, 0xb9940fd04b5dcc31fd596c148448444665c55b6590b1d168035a350bf7698e1, 0x410cc1cf837a0e0f9bb24147a03b7c2dba6dfdde17c8f98b5dd755a418af6338, 0x64c0028ab703e818cf9812c8391fb503ec653718bb71d6b85540414c41993591, 0x134ef9abaf95f427b7c26108d23820153612aef55968582b27bd6fc97abdaed9, 0x3548de8ec8515b0ce9fe013b7517af9900666e5509625efceeea97046c79d80f, 0x4b1b7d25e1d8fb308e0bf85b95231a140b78f4cc6bf92c351127879e7d903fbb, 0x375133802674d53ec0792e65156547c0ad03e8d4c6de8494aed64fbba93b1a39, 0x1df15f9b4b88d2040bfe3c3ef585fd483714514834d1b56c467a011dd7ccef2d, 0x6787c99768583e7df184451422b525f3effd2ae62001d0ff31e4432ec177417d, 0x19498c037d69964d22270ec1f24ca6d8fa08718cdb5100313aa96d7777fa5fba, 0x496b060561da4ec02ca16f6ff82a875ff75473a3c26c06d6838b36b3116babe0, 0x6ac8f207b1d1463fa44e66662868c11c7d7eeda648499d68a8b5528db7fddc14, 0x63e59d0a870217cd066e10168330183fadd0bd082687563a8f2ba089c503e207, 0x462145d2cd5521f5cb7b60006b96fc38d6847ad951bfe098628c3642c0277d7f, 0x32dd03a24c1439dfe3d9efc8086eaa0edbc443cbe08b5fa59e4f5d7040f07571, 0x76a8f01850abd16e1c0401681c128be70dc27c10f607e1874e3aac79adcffb8, 0x709e520bae109716ba9429e3c48bd563b6612311a5ad7d9a50d6d18630a98a29, 0x73189319132d2914aaaf1525b0cb956e4645384b07c13856c44658e34a974e41, 0x1971f917cff138790a1a0f0dc13588d1554021cb9e8d1fce3733501524750fc6, 0x4ba259f3421ed8b610cd696814716e1fd6752e8b001e37a0292bd4a88ad84453, 0x4cf95081fee9909553b8fe2b6f3e69122b8535091fc2850418c94d0f127fe906, 0x18367147a500d0f309b83b3bc7b1360d3c4539255aee77107fc671afb225b49e, 0x33c55b34e0d162a839410467da4bb875a0cecc923fa0239de5655b265637c87, 0x33ebaeb711b7c6533439c34567678d56875eba285f3fdb165f9c40029cca88de, 0x6027a8125e4907ff3197686097139ba26b4965c0ae211c406da4cd773c1edc8e, 0x397be81f9de3745073c9c782c0d5501691dff2904631381e9d5099fec5915686, 0x3b78744f3ee3c78ef475744e5b6bafc14eacbf392afa11eec627f74e4d4e8fbf, 0x6cde0661933c9a499f147d89851632aab14f26716b36e3137e67b218a26a8ac2, 0x4965cf4e00dbb2bef377629f4ca6ce21ebbf75a7823997b7549cd5e63ee62941, 0x67130cfd9c5f99a4c3cdad81d42e5c2aa24bbebe3f80aa0aee5f9d1409f7c5a5, 0x3a85502781b2f53f06a4c8696beb4eace7d31276cf9506736b86d6b6679dbe30, 0x293992ef18747e44c83892e99509df6459125df4ac4a38bc6132fbe68ecf1fc, 0x6ffa5d8353dda31260a3209b6879dd94de0f56c7011c2af214bdfd14c29e9b20, 0x371131e82180623acec4d807a8d37e63deb6033b668c94ca8024536e913fe613, 0x6d8cc20aeb3286327bb5e51582a06bd8cf42ad5352710e0b20705733df3c5909, 0x1bf01c6d5d4cbf76e85faa72ae601810aefe702ef04d6cbf86c5f209e646fcef, 0x393a77378a8a0ce42971328a6bd244ba96f39149a0c33b9bb506c8a5371c6620, 0x1e9ad37c00f321a8f6acc814299bfaabb64e4e73ec9e18e87961711cc9d34575, 0x4f85fea10fe55052c5b491e20233c26b8542eb2f4c286f9c6f1e7618d5608d56, 0x4ba7a2e552763283d6387ebfe4828fdcbc09a4e7182c39112a210f7a46018d32, 0x32b58a6f4b9119fdd6a5d26eaac86ec1695753451a1810c1e66d16d193060bea, 0x6670eaaa32b130a9a4e2d7e7f023333990319a688c8550db6b26552950bcb17e, 0x3d035dd10f6c727e248e8731188402ab07428c6f1d9014e4ec387ceacda3f4a1, 0x3c2ddfa167a1753796d6328bfb24aece154149206e93a65195522fb9e25f474f, 0x3a0a0df7bcdf2421917b3e56bc7713baee103f062277f14b1e0ee078d71ebc7e, 0x66a1cbe8ac924758ef6ee3a6230a3f4e5efdbe14574fbe0d6951e915a520dc76, 0x61733af10eb5e9b59c549d1c6c0c3e38917d2187e0c6789e0dfe18d3c1b72851, 0xdec1a1f3f7cb41b5d177a7a0ae5a89d5a01f49c6d6fbeb0d2daa5ab4e32c4e3, 0x5fc80f624bf404bb02e5585b491bd413e0c1eaaac8951ebec6abe5df1319a31d, 0x497015c21e70e1a6179e701fd01b1ab0a1d04d8fe922ec906cc9ec6195aca6e3, 0x462ab7fe0ba833d281c948838b969ec4f79599baedabe7561eb5244ddcf38699, 0xdc2cf565e14be52c3268e06bd9c9795440687cef46c059677a01e4e01914cf7, 0x2a049e4df6dc497e1d67bd71e780a18f8bebb1b10cf0651dcb4e13f35bd58bd3, 0x640bcedb0bac5bb555b8e54368315359ed858df37581cce0c252047e9b4b1864, 0x9f9cae428800c6bf476f4be0ad14302401fe7b3497cd2c22edaea8441f0af0b, 0x4205b7f22232b126bb69abd340eca1896c82be78c95a2f7ee5b4302ad1b85f45, 0x2f1b91ae19317cbc3c04f449e08811815a682fed5d1bb7a1b62f5ee12bf3cbd3, 0x7293d77a544378f63b622bb123a697e3d3fb08b6a81a7ee4d3f9760924151640, 0x392c03f08de319d091c395295a1be3d3891a80db2bef5551b5ebe9157fb7a89b, 0x35e4851fba5ebcdaba1540350599e73894cd65d6164d48429d132206d6a7d548, 0x6ac3965b5747c9e0495615bdf1379bc78f9426d24b7259f2ffb68bf8ee75c6c5, 0x53539cdf7003f96a2103af159e679a76f0078d3ca2008b503fd2eacbc256b6a3, 0x2e5056a1d074306e1976853a3b1d5605e71d555ed6ec6957b5e086d02a5520b6, 0x5576193456679b4aea91f33cd1b94e96609485b2d9cba009e2d472dd1e43f52f, 0x4e94a1aaefe154976dc9dc38e6ebb194897fbd6a53dc9d18f8c5ed55581795cf, 0x578626f7c751c53f10afc7fe1858a71bf0377a1be78ed7d2e2dd4b986cb97f77, 0x732d2d8695410f18e0df85e1a9623718483a87481d1f1a8a6d6e71efa9f93c78, 0x3884c08897af05da0b8327fdf14bd87f5b4f80d257a3fa9093cc61d2e606295e, 0xc21648599c03c497983f39bf9a5abf2d6014559b0327ebfd9499638f8455fc8, 0x4e241ffd6e50ca0502a4f185476fc06b3b9b63165aa8b02927f4cfbd2b7745eb, 0x56cb03aa671ae5be1f65091dbb46f3652543437be6d2d591216964cb2495add0, 0x6c7474939727b607ab0db99c1a4af56d132644f355b8dc292dff9356f5d57935, 0xbef8956aa24058538684a5b4114df507d57678ac7303967892d7ee51671bfe5, 0x3ba863433428ea34c420eaff59bb7c5c7721453ec63b5a4a2eea135b7cc21045, 0x687a4f1854a0e102a1162e5a0c299331d5ced216c27612f16cb51331ac402ef1, 0x2abd32b5319b4c90e2b38e7c495f98f8e3f540620e282b9e0f220bc9d27aa6c3, 0x1d1b17596ccdc1d28ca85f2a27aff37b80de869c3161fe86a19ae0df75cef3cf, 0x4eddbd5a3c8cff770cc56771c059fb784ae68b96e204747c4544c486181a083, 0x139d8ad4237c0d7856a1b19e5d5b22e1967a449395530bbe2332a6fcdd4435b9, 0x66041dd6eed1d9145ad72d20a9268b6bdd5eb05543b596be2e733dfb69caf2f5, 0x63b5ea8064db43cbde47fef52ce28e53ebbfe3540660bb910d4b1c45aee39be9, 0x7235506de6f3b27c560f12f7f9052ece6b2cf1c8b1e204132fbe0fbe18533578, 0x2010ac6a4696dc2de142031b072b40f0f93d8b7d77184910d3fff0684ca8b93, 0x180274887c19557261fbc40698bbbded753bdf2e21fed9eed7e4266c898ea328, 0x71807523ae6d216d5d253ac90be51bad868bf36cab164ee4efd76f7a46506948, 0x113f47b0c627e838cd1389496175cd26a77f8ad5bb79dc2e5a696b37899c0c04, 0x5ea7bc252272a6bc4e2a10ff9cc0e53849cf77744f2df0970c61776e35931966, 0x41f2a77ae7b424fec85105599c962e2623c1ce7b341cf7d803a81ea03c2b8b91, 0x123122b7a02fab9c0435635f61e425af61b3c909326e1ccc8deb5af3e82b47d7, 0x4c9370cc2e8c710dc7559894eedbae23c8c98d6de73988d519e7da3d06caffc6, 0x59660a025099ee3be166e93eb4d6ece3d6a72ddddeb0db2ecbc9a95b711576d2, 0x552e61da4c082fcf16c65c0e92aed7a61f0675085a2c920c6c81b04e4de37d11, 0x6c3040fbe3f31e1baf7403857ff90978a8c2a60168c9cab7eea1e1c59a057b4a, 0x3ea69c04ba35a8eddfaab254c7b00b4d0dffb06536b20ce823096370240ecdc3, 0x66537c50425dabaf945921f01902bb591a70f119cceadd43a9d06d5468a24641, 0x1dbf8f1d5e55e9b1969e2d6d86258b7e6b63278050864d5c026a917b1888612c, 0x2bba48ebd04631a9e75b8b5a669aa42e10d3e782cc82008d37ac63072f987ce5, 0x151dc34c5a5a65b4b3374ae2d617120377e8c4803a7b329cf7d9ce2deacbb213, 0x2472941ff2b21c0f946c54e074a827e71a05db458e28725606bd4565e12a6558, 0x5f4df78ad5374fa3f45b3c0e0ecb71eb91ba4a9964f009cb53495d111f8a444d, 0xb063361919465c9b00ff0707d08648aed7ed94ff7f203274a6db4e9412580c3, 0xb6598a1b994208fe17b356c0160d7976c3dd0a0078281f8120acba1ff92d273, 0x960702029d7b230d948a83f5ccc73aaad322c69d6817191eeb81e14bd10a138, 0x730e1a42e04f64809bfec22e9237269e00f14d52ec485d3998f939bf36c0c718, 0x68e22cdd31bdfc8e952b26460565efd60d4aea9a7e8cbcebeb31e5cb9aefb2b8, 0x26fe8bba1b08fd5c6f16858ad10236b08a06aa993fcedf5e025d1b2388a977ca, 0x46beaab71b17e5b98784a512fba0c909b6f55ca11e8a6b4a620f108a8297beb9, 0x3e2cf987cf6603a9106566214c5ddad2e009f9af4dca767543dac12937d0ee48, 0x5d9845ae999766979577ca608ff6214a6e93eba56e9ea56dbc810a16be49333a, 0x5e64102b92d882acbcef065fb60c74e81ecc4197250cd4af1d9737ce46df6622, 0x12d0b89556946458eee95c931e3c117668dd2e5753036422d07e71b90f692fae, 0x95c3d091de1219c7b310c4d31189c585820c516abd50bfcd9fef99ad7e65eae, 0x2384fc5f9ba5e7cfc34894b7b004b1b2ffbc20604b4f7c24cd5f0b12632124eb, 0x180efd8ff18c8007fd109a66f662713b0336f4ac426346d7ab444309428c925e, 0xcba63f8e5d8dce362daa6b38f2e4bfc54cd95f11b5159451f22ce092a5800bb, 0xd6f699c332c42bc03b5f02a7b9d10a33ff6771632eda5e3879973b8551f1b86, 0x6916a42576969ddf79e72a0e8e87ae2d5b9f78e89c46a6c1e97c881f08f160d4, 0x1b10a64574ee98d94da8e239ec67817f1da28615b9d3ec2ca4a7f85f0093df3a, 0x5658eb89327b1e81fa91326239a76c25abacefc42b1e53d020d99601e5737e12, 0x6de3f41a592c8cfa14581fbd9b6fd6f2afaa0a9f1a093a8f4b90b03f52f22058, 0x3d9a15aef5e2982d3f5292e418f60eccf8968d79e96c8a2b0593afe1f073e9e, 0x134b010a4b2ac555476e307c1deedac57f9dfe4dd41fd687ab0ad665fecaa510, 0x3ed453702903dc079e602045de309a216214e608f92aad1fc686c823e3d82894, 0x1ac47b58cb3af0e0824589ed9832b254ae43a88e5156d8a7afb8ffb6ca490f19, 0x49430d0ac0b124a3568c738e33ed0a160d1d0438b1e82d564c33ed8ecf1ebaae, 0x634d7703cc4610595294bb725bf39b81036e355825b1f73d1e560b0e71c2cc93, 0x38f8a5a90876755d8d89a6b9c7a99eb2874a9232f5e425bd458ca90c5ff07776, 0x6700a622f460772bff60fe93ee63a78d0709dc6f2e83e30a678626c00309fbb1, 0x66cbe7bb7414994496967bfc210f10d52249a93314acd2a596f4ababe09b92c5, 0x1d776784955c5954c0df8c6788baa82492ea6fd5d9f4299e7c85bedd165cb378, 0x69d500955ebf3d8e8fc0f4106f66623f97f751dbcd5bbc56eaef0730e2be968d, 0x4fc03144dd0e25cfbd406e967a73ba75209a9a872e406b937643c532bf7370ba, 0x521cb94938fcb590e28996f22453c6381e9b952102af36736f9d56e5efc48f1, 0x448fc1c1454d952f11bf000cd64f749c8333c3b66f0210e057b7059e6ac94bb7, 0x16810329da2ada21d728d61a56cfa501d1bd1e8e84b6ba72d7dc813a53b49cd9, 0x18bea043499a137325172c3f5641e97dbc45f3bca4f03023dbfe6701f6c845e8, 0x6866dd9e2fdecb62aaef524a4f9cb2511e0ae7256fb334521a961f16b6362d5c, 0x5ffd9bbd0bdcee0ce71c3d541c77639601bf3986e9221f44123a925a9376d424, 0x72e9713318953728a4d64ac7dbb91f2d798c3fa72fd4bb3fe0bb150cec0b720a, 0x38af4b8190c4f2eed21ca5802aea6213087b5b392bbb7a921a8a12f27c195b7a, 0x568af30c293129d126dd8a367df73c64c3b504365743cbfb1b5290236e882012, 0x4de7d7bdd7bef26f0e5099bffdba4478690fbd05fae787d696aa438d05ab6e55, 0x1c4c26b632a16857c17a5f389133f7603f5e3ceb345f55b475defe56718dc58d, 0x5d31535d5eb2de732b1503ba79694691e412f8d8078dfed90c9a9bdd22789169, 0x6c4f27ff8f02240546202806b67a88db0070300c5e90e8ba82371bbc0afd542e, 0x97592973057e735ad71bc716be9e0514823c8ed931ad1f145080a57064b231c, 0x672d5c7223ede6aedf0ad6053f1f20a8864d1c78241b07b3eeea6b5fa6fc7a57, 0x6257147d9e0850c0214854a923383b772235dcc01a26a5441db0d113b96aa58d, 0x6e84ddfddbc55f7ad4297ef7574666bbbd5cfcc95ba22fb73ddb1e39d2bd6991, 0x603fb571611ea28053c3420670d0d59a02c72a2132609da610d437d362c2a15c, 0x5e497308d8a5314e0a21083a5c84d7b2cca097e5790ab3457b1c9f4154ba512c, 0x1947787b5b29a1cf783c1b2f92a96fca361bd914e5c67a47cfc8d1c700217d62, 0x2ab00830eaeb258e30c7a9e805c6b5cc2bf1f2d2525f3c3ec7842158550c7913, 0x3381f202d249f31ed4a9e026b5915b966c3f6d1602d57fdcca4c02519289dcc0, 0x2700cd05f786f19440a2ba4275461ec96e5c23d7db425dc54b6b62c56eedb8c, 0x43499c5e1d18def5b65832430cff742a63e850c903b45e4f9f65513404469d59, 0x157b68ad3a9436fee511f5d2dd813a871b2c7353daad4a1ac927dc800a2f860, 0x4f34356fd7bc28d43c768dd5c9a358da470f5bd1cf93fbcd0bd56f649edd8983, 0x44250ccc4de1b16b6074b88f5e160e0af4a9dca24abbc116d2c290b2012d489a, 0x19cb823dc2349a0dc07e0b96094a09d1aa7a72e1d415f2840a0084805d095077, 0x41f1191d8a1127d7dc7907c0b69cd3df9e99c955102e637475d9e975d7b1d711, 0x2f16fbb8a672526583335c39ca81666a7eae4c14b01587c17a76b0e9d3502b3e, 0x6f8039a8b3f1d23e7f87d1e3862c969a6a1cb28e8f67289388e3f0e9cc5b0361, 0x5206e3a352ebfb61920ef46afb2e72fabb0524bdc438f488122a6aad00533f9f, 0x3e67f7099bf60444739c7c641df022db15e45ddf5786172e1c4f2f9ac4cfd80e, 0x4b4b21e16ec481d4fa663bd3bcf67e5111151bdeea97b77b581ecfa01ddae89f, 0xabb2adbc74f7d47d084a235c0afbbd27a8d158f78f73756fdb83d050266ef9b, 0x36aa9a5d2964f129b6ed0335366b6eb8f4ba75220f2daf98eab43cc70f0ee44c, 0x3f6a69462d5a8e15a399dad78006037dcea86447186d0bab842b4308707dd391, 0x48eed3ec90870ca693324ddec82d45dd77c0918d9ccb30cc93f2e29e8ec24b20, 0x696f296fe18a3d41cd9f49a5e586c96117981a1d14e75b83cb0cc49438e55aa3, 0xb6222044cffb914df2b1b2efc0baead40e17feb8f054e9e12abaa3c4c049530, 0x51650e4d2aa819e934eb12d2d2e408453c78da62ed688bf1ad4db1f2bd9b5d8a, 0x6c64efda2cd7dee15a2d0478317b362ff888db9f0e06383b391144b5949492bd, 0x1df155ebbf278cb8f5b3ccd1ced8fa71ce0d0994776b00523b6eaf7fe92b4b86, 0x40bc46ec4c5b9d5f9aee1d7e3a57be7554a49292866998c82e4a32ff889cac85, 0x45fefeed530d7879d38507d3f4cd44726b2b00974ca596de937fc83bca3b0ede, 0x6da166a1ea4d2fb7f94a58a1b2d14cb531a3d62c1906c9dee9d3c3964b254c70, 0x39b61c98beaadcd1a199c7a65b447bc8fd2da06a9f649eb81d16230f06a3cd63, 0x6e85c08fd6620217b3fcdccc24ab985fe68eb3cb1adc3fe63d4d1c471e0a2a42, 0x1275a653acf45490a2d9f001097b7dde6502473a428bd5fd45e4ec690c75b021, 0x44a39556030b44d18fd620ea60a4ff55b40b395c2d94eaf8b2f86779027dc152, 0x4368785cde4c7c172fa555f0c3e9344742ae6adf18d4cd406a51094d22dd7ae2, 0x5d0c29b08f5e85b3f622fea3af7464a59b32d6f01c3464ccbc78ac3eb0deb001, 0x139f944d557ba27c9e336c6400d5522900b95963ea6c43e976f28cb9911f6f8b, 0x1cd2eae0cbb8bf5ba36adb49103713e4de52d4ce8ee49755b102a6176e7c9306, 0x51c73f7142c9357d35191f5224cfaa43c2dc1007640b5742feb6ae24a708421, 0x4bccc964998bda99e40dda3ebec7a71879e4c0e97a16583909870beb08bd1612, 0x5f8af4fb539786f4400a6512e52fb9b600cc14e854526b5ae9bd7e6fd0d0cbf5, 0xb2dd71fd0cb6a009b703cb212c3d072b127ddc545fc7b1b6649c9ca937dedc8, 0xc65c2fc440c511a9926f81914dc537e6a109fd5954851a281b07b44b4fedc55, 0x4fbca6949cb43dfd5c0531e0bdb408d7fbd944e4b89a8cae18a581462392bd6a, 0x382cbf5f9e3892d7281e737d5cedb707ec86d379ccbde745152dfeb55a6d62c0, 0x180e7694709b4da988511b047a39742b7d98cc31bc049945e809e4c9a7da4ece, 0x71f5002b82251d5c071796b00d7c7e529bc6922490283d9f8ead2a844f4cdf8e, 0x4103c5b05f757b051a9a746b64de5c85242f8daeabc2122602d790c7dd4e27e2, 0x261402bef6320a98d28b509f37bef075fb96c3f1ebd1aa36e4455e0fdbb6e95, 0x6d11202e97826305817d13e74d6a2ac4549dec917987fd703004677726d9f455, 0x3d6235487fbd9e8a242f40d46fee627aba9d4cc2525433e1cd7c431401e65969, 0x14e08714fb3ac7951622e7d001b67af7c966301f39bdfeb89c0edd98e2c33421, 0x6926780b29fbd780e1542acb9558f674a5fc8cf87cc31741815e138def01b47, 0x4ebbf9702b4bcd55f059ce7a6396ee13d31dc8603c280264104589d8a6f478c8, 0x1fd1fa7676035d1fa0e534d2349b78a86fb49df5603ef0f79ae4728afaed1fe0, 0x701958276cb1064bcac68396f618af0a6f6239ae101a6587adc1b8e47b94241f, 0x347e95bebcf4e094bb814589e7bb252978616a881f388b718eb1b9d6d047035e, 0x3babd32906b1c83e39f4b51c520ceab8bd56d036d115d75d5c51ef41450ae069, 0xee24c9951365bf07c0c59b0b7deb26849c101b692d53a77736f07266607dc1d, 0x549a92ef382501cfd9dc3ded741be73ca11f4324558465d2e6ae4f9763ec47b0, 0x232d655f53185bf2cdfff137fe3aecac9b51f07c5b42941a99f367e51e59bbd1, 0x7159702f000b7b6b14ed48c9f94321ec2670339320b09cddb151cc8fdd868e26, 0xa8eea9b6f2cbee09f60cbe808965307dfced6fe7f427096bd23b20ba735fda4, 0x1b6230ac3fbf5c207128ea3025f6b699a99a3ff2865664c04fc8227275fb3158, 0x3736bafc4968f125948aa754607c793387079f9d94f88586cdcd6b9a1a387fb1, 0x25bf6598be8dc390f00e8d8ac81d51079d62e68c61982a05a6c30767b0318419, 0x301312fd69e7315f49dce8e18a2f49c234e313db1c8b6e5cdcbe0722a25f467c, 0xe1b3b2b45892dcac4cc36a5257468207298ca0c13d872cee1b9353aa20dfc71, 0x3c9134db85f5f757946797cc23ba295a620bc6f3fc8f20ef6fdeab6adecd11ad, 0x1c2dcd8016bf29678dfcc2d11dbdd7286730aa33c81665ecd520126841009095, 0x3cec5c2548539b6ed0af61552afabf87d420ba958d40ce21455bd0c6665feb1c, 0x12267db235a9e1f8d5679ea999956ec38338ba527452070f6e3db33895544811, 0x8afc288ca97a18ddc549ebb12c2343efaddd10d0b533d92fb4ffc8468cbee82, 0x26e2d881510219381eecac507db508ff5867864563a7a3f08dd10da126bb780a, 0x4d6c0083bd802e6ab0c7a9bf18973a1a4d6440b322c4e05532e64bc112e51af, 0x55fd64995d58b40d32aff039ce6bda6ff84b175bbfa123f50dbb07c6fad84210, 0x40e3f654cb96359acf33ccac33af1edc624885967cfc0c8bb46c30f17bb5eaa1, 0x58c8b5c1a8672b3eb119a899648925811d4b0c40a83f91b3aa22db576a21126c, 0x6ee8e8e54c9b732845e6095dade68c9a8d6820a28b8ca7d6d22653807121696e, 0x730bbb72193ef56be47b4d057e61610e4c9d60aca2742cc0af1f42b11fe81d89, 0x1b1ec5ef86055597d2be92040dfdf9bb5c588514688a826cdd0db54c31e86180, 0x4da192532ea506e16700920de2c7f9090a1a874faa4c4a43ca0bd45345de0183, 0x12ec9bd9f2dc4d0feb0817496971208bcb2d753139d815825f2c1fc8b3233ccc, 0x6e06ef12448fd91339f649f1cf0e9a4e40bbdff393bee5c57362418d0c0a75d3, 0x488e8df7b3cc594bffa66ed8d377688d42ebd4cbbc206c6d04c83d6065457bd, 0x2a9e59de94aa2a803edebc916873f88306f400131838386f1a689a392fb0aa80, 0x5b16c58024c7ab7ac23eb5d210fba8415232b8cc68fe9c0044a5a9a06419891c, 0x601f3f5c41872a95bdcf54c3d5cd62c884cd6234850865434b5f015cdf0dd346, 0xa0a3c95fdc762dbb88fbc8c8cb3a072b668c471cf95faa4a30d47717e55b5aa, 0x17ab6a4ea826ec211c62ed8456f986f3c44e291c01a7aae632c202cebd16e005, 0x4d8950fc8822835fe0f72424e83c5122ad52c66ee7ef4feab2a686e1eec10a1c, 0x4ccd09a47ed8df81c9ce2c6d23420a7e43f89db150e2d589b8bb3950c8e4fae5, 0x2b7bb07c02236c6c873fb73b86d54f3c038022c4395b3ce8c83882e562b71b8a, 0x25839dcf48ae8d1102dc70b19c13d727bd58385753ed5cea76af61152e0b07a9, 0x4ad2b480a7146e09c13fe0be241475abc2abc32fda01b72cbafc06825d1645dc, 0x177f7693d3a8efe70f0b39059425923d357481bec2cf327c93b87d5a02610732, 0x37ca9e21517ca1d1ed845a24688c4584b42bb59faaca4e0d093fe92e42f48da2, 0x23e52d3b0a7b16461ff8e129cfd5245ab671e5bf33bd877356fb335649412b2, 0x506b65246e6a4fc70bee1b3af65658eda895fcc7308bd4ce52761190e386291c, 0x1ee8fa8b611089a0978ea69f6f4a9be12d046623aa81605fc380df2598b006c1, 0x5fdbbf327deb7f4c7d715bc83f78d4c197052c539a93feebd67b7e4025161549, 0x4024ebe15a0c65c25b885b622a6101011644a03d872e113ac5e258fd24c74881, 0x1e657d244d9ab310ba4d8b7d9475b891634840a47d725d998eb1662e52707fb4, 0x7b2353df6e15c77f942d6c288b3dc650d43d2fb5b08f5ffe099466eb7d23aab, 0x1a7a988fad65e591c56203617976430f80c40c5b9ceaf711228b7928f5204997, 0x3266d240c1ce562c7b3c36cbdcd19de36494b505e36fd10233589ab360cef006, 0x213d86a27d90a5385f7014da3015ca9099a943817b7378058b54847938f3da5b, 0x6dd05118a322a647c01193c6d2f44e643b983cb49a424688f02192d189d91173, 0x90f26db420fd40b5e7f1c62a70a85c0b9ae270653dd0fbed5761154d5d0191b, 0x335c541f34b95751d8d08b47897ad3281fde801f57f900fe026401ac159240cb, 0x3b4dfef59486858f172b2a4001ea04166759ea28420667ebcb0075dd9a9d161e, 0x1f0671c0fb59dfa54f4dfc70c9f12bcd7c0dcd1913d3d5d8927268f9e97da1d1, 0x491d1c4c605be6d35ddbd31110827807d0ef694dca7d0b4c2a5c34b9a3766b8d, 0x91024075867b7b478ee21ff8856f2e3463129985143ed6875b90b6e6e96dc95, 0x171de4c60fbae63be7a125c5b4d9f6f64b0f50a36e96a76d1c6b645d20c22b06, 0x2f3f1fd3ad8775a2a988da8b0c61bf9f6ad59b66641dad71cbce99981025874c, 0xa32affa78fd784679c033999f79000b16d6bf261e1322390147f5ff6dc3c5fa, 0x588a3dff445d686c3ce7652dcd3ecd1745cd6fb5b3f8487a42b5f7052830dd4f, 0x6393589d2a3c951f83cfdf660d57fece34bf7ca5e24f35db002f56557ec108e3, 0x555367176bb9b3cf0efdddea73c964f3b3634bab596895f957b40a82d35a9689, 0x6249a2ca8f6d4f3f68a0d22e54137fb898c7289b310936f743023056fce111a8, 0x70779a7944f81cdbdd7f1afaae14b4e0b39eea128cd5d97b27d4d0437d4c6616, 0x3e5f9833cd3c9df35f0e5600ad0539208f5ddf85173b880b0e334fb816750813, 0x2fd0c7a3c8f130f1887feeb6c5a99b7997887a7eec038e655b13cf5f24c94fc3, 0x5e870d45f4fbae4b45e797f07b1aa3abdd12feddd47d45637b92616df5bdadaa, 0x1943a6c4fdf82c7e9992c6154dfe551c312876ff6ceedc8b789c8236b5577587, 0x50f35fcb6d98efe950abe836fcdf085dd42f9f8691ef774aa4c3157329d1b895, 0x26b15ad2cddba7015ee751b0e862767c4c914f7a5fc797ec78e3a9b151c7f612, 0x23f75d3d63bc9c0b8e9775d26b8aded172cc0f227d65f72a8b7705fa196aa89f, 0x3dee11b1df5ef599dd4183e63756739f1d2f3f799b59171d055d06621748106d, 0x5a3b3501d6b2589f335c83fe122e2b66a3ab2ae07be928437448826e44571011, 0x157504b49c778157e84e970b2b60611037a253891a4f8f446cc364d4ffe4b1e3, 0x68922beb5ace2e53730b26a869542d019c18a6954064bcdecd5f303f9c774332, 0x573cc070a058205ac171a9ce3db33c7df058cf7391cd010ed35b1f19597864eb, 0x568e7c7df94937c40fb238c29780ff58bbff580180b9738ea9e6214ffec178ef, 0x62f55a7d8806e259c3dc277282723657952fb81fffabcd788e69e1b4b4a64a07, 0x7d9825f518bd1bb2f0962a2ba09332a7c6a0c18df5978d7738c90b5315d0275, 0x2c7225b300b5d790a25f27989b915b001894763a0a67d488cfb8093e1e4293b1, 0xa81494d8f17fa42c84a388e12c1ce451611f6626dbf2c961e310a0b486c739, 0x10cc6c7c0ed40a97763dc105b1bb51eea5ffbd9fd8e0b1085b834a67204fc584, 0x5b6b651ebd6ea8f2c5bfe0f700a7bc97122108f2eed69e50546c7088e38a1bce, 0x1e42aafc22f0ebbe4270fb3027993330d65c7f42e43bdac4aa3a7afbe19f37eb, 0x69f75d5c2972c20f79dc1ae82d7146e01cb386ac339af5b395261fa44514bb8b, 0x3e85a56420cf3fafca0a2d46030aecf74ab3ffc33ab3a077dc51e9e077dd147b, 0x57adc504a47f5bfd5ffccb9f8570aa04f0cee61e5b6ef81c10292b50e586b85f, 0x71a31e1437b12ab4a249e4b7fd9103f82d45b6a6d18915695a0f7c0b06b2176, 0x356c4b138dc80fc7ddb1b4eae71fddf2cb9bfdc3c2e43d70fec9bf5fa8629e47, 0x1ffcecd90f87613774069c35aa9aa0e540d52768e55100c8a5623d43aa42420a, 0x595fcaedea0335ad43f5abc7989249b6ea09a71862191f39447fcc8da244bbd8, 0x2caf71aad9b8486ea8a71a662f1521c6a8f41b071b83ff6959ce26e21ca9afd9, 0x2a13da1b7dcdc2abfbe1a1f5ff0063ad7dd56059757015f28244ff2c3804765a, 0x65e287f62778a14146fa8a9508e231bef9c7414c9a4679bfa51d56da1970f059, 0x60f33f6791b16e229a4532131eb2b0673f580388172a3d9e2037cc4e04bacf43, 0x38740537c521d40434e705bc717d22422a2506e5c04ac5a1ad9e12cdaef8e7fb, 0x1b525ddd615c52e9cdc3f2b9ca99d1a10c71397585b0e97d7a8e19ee34037d5c, 0x69ff4c6a356c9ebd999c539f2d30216e1eae0422719eb38bf9104a7997d2d96e, 0x385d6048ba2b71a06de776c6cb5b0b307b9d17036d4274fd655f4f4e086f6b45, 0x5a91da09026c65f680c8c5d1923daabd05bda6f4e0b93440c7eb163e3ab733bb, 0x8ed7126e02df29d7dc64605a8841cfb766a2e79efa6611d0eafb1e335de3094, 0x52191b6f830bec299d3796c0424e6bd7a0b78dc9ad8b1e7c7968f19bacbd62c1, 0x70014cc50a16747f24acf2da9e91026527db53afd589f5dd3c390cdafaab7a0d, 0x18252201acf25d110dab4dbb9f27c17b30c6da54a336f8235d5bbd0b5cb64d3a, 0x61dd9e391071aa93168c040a0f911f40c79b9c7eb02e2cca1e7167768f794c6f, 0xa4cb59433de5b92048c3e9867928302556d52eca8751b1d448ef8fae512ec46, 0x20b6f7d7c31568f4aafebe02d3dfb8e0ff3f05e2d736023db00a15294be99a83, 0x2ca1c2594c0953fbdfa5f56dca5087f4c928f9bd8f388e3e3c213d6b9df1512e, 0x1b93cebf758440d878307ac8ecf20f4d01fec899c972391544de7cec559cfdca, 0x5b652f52ba245450934c722edb93dcc5cf2a04e003a8db8851688b5e98c6c104, 0x6947ac04a92363d2231d39277e618a6bcc4a5c0416896d90a5931a68e9f3aadf, 0x31fb4ce1d062c3f7850a099e8d5954b364b9495401f76c421dde9660b24ab02b, 0x495b858793a8c69043e4083e8c44d16e189dcf68787fad55fbbcc2c7955423df, 0x6efd8bcd417e57b5bc1d45f23676dfba29f4ce0c5dd29c351ed87f1148ace183, 0x712e31dda7e55351d8b30c5c1ed8edea8d0f4e3f77f21a57d4e30ad56e2140a4, 0x6a8d2b1039a7325a9e45f07a122f92c87892bea4e86dbff12051aa77b3b3201f, 0x423e19984da5b1d9b9cb292e3d461ab9b0992d5e006a722b886b61f7e3f0842, 0xa55f16021a6ed5cde1ac65a54f6e1d58cdfc92633550dc36dbd9e2934d65723, 0x1c5347bc61eaa457a72860b30e09e4a726443550b72cb27b8e3587631d76cca0, 0x42c958b746bc9cb5ad45397635a14d12ee7298148005824c9b2f4f49f235740a, 0x4a19380794ee7fa729b9c36705dc49e5db7caa744f1c8aa6d75262da55fc4752, 0x4e0b4c0282a69bc8a6557a0400b56883da4efd0dfc6b8db39cc198b22113266a, 0x3dcdacf916484bea6d0f49131a03c98eda21e6d1cf41a0c99cf5f27d1f35b55c, 0x67ac3b6f5a6a5180cf597842cc49b1051136a3fa48f500ead2a331bd021d7c71, 0x2dd48834f8a43016773567aeda3b74940a94079d629225ded840b6c16fd3db30, 0x33c832fd65e7d2f7d8a0346574d75164c6ac456f042c909707ec5369ab40fe70, 0x4db6ad58dd7c143150331188f98d071fd50070efb4219ff4a4118933aef54c7e, 0x68d48f5cd8bf85e839b591b04b307a5b250b990d38fe8d8bbe93756fed152866, 0x39fa0c0cad17944fb97811c4fbe218baadc8fda2aa0f6fd9504f1dfb51a68dbc, 0x56135ed67a35f36a2ce966bb5300d9c79c10513e8ccddfde976a139a39763506, 0x4cd337748190917d513a9d6450ccb77579866562411d3a95b5cbac7b47bfea51, 0x5a7aae88cb549b3ec765917b7cb79ab6ab0e2b945860eb80f04354b10fda6fe8, 0x3f869f3ac514c3add218aa037b5d0b4ba0412450eac14c24cbc29112c457bf18, 0x2f4995c5bf12b1659d901ae5e46d38177b1f610c08980aaddeb1f4c8f0d62d12, 0x5783afa417b9075f698687950a4a2bb4b36dcc98557be75b8686ac9072ddd77b, 0x4f0028e729126808357ab7a759aa0ed4e5bb0ff2d8973327966b5a2977d3256e, 0x35b2a34de051d544792ad4cf13f00259f7ce83d8ff98205992b1900571fdbe5c, 0x2cd66a388848ce0c138c2fb3339061960c44d07e5b47b77b5dc74de34af095b8, 0x53e13f0d663b1476817279fb71226172d175ffe2b578ef014d6ed14353dd9a83, 0x3a7667eca21cf391ef1741ee53f7d867545f81cf8673b6b305dda67f91235b12, 0x19a89ed0b29fed99a1ca690b5372d9445df9d9914c48fee3ca7a0b295373c955, 0x3b99d6aef4f586a8848152b244e437640fbba51a8f70a22c198d0a6e9c8791bc, 0x147a82677ffc4074bb40c8955d9a1aceae306ff64f7c6405ce8d73d6a3ea8933, 0x535dddb8722a1d193d87027f716c847272da1ec1760562dd331c0bf30987b25, 0x45e50d2379028a78aa628a633a68a542269abfce77e85d8629039861bae3ccb6, 0x94e8ac8ad5b907c11edab6f35cdd8420b775d8292fdd9c629df25942c78470c, 0x167070d9211dcd5bc49cb832101f52c65489147fb157df7934b91082ba1382a3, 0x402ab3dc2f89938231f399bee7f66e9a5a0c332271830e795e77fc5da1440ace, 0x58495b63167ab346b873ab298044dd5f4693d3da3c6b93b39377d1db99d5847d, 0x72f6ffd08e18e5e5d92fcd85e8d5b452875122391d6af595e771c8252c7e2a93, 0x2e99a361fe5140cf3b449cb3192e17782e3402d0a74b4f175a4535bd1097ef7e, 0x1f895babf15c61be151951b81e870d7c340180d2e8d1ce882c2102b1ae7684bb, 0x54447b67ed5f2571032e7d57446c1ee150680e5ecdd04ef3a68944f35472baad, 0x2052797c74e85fe9d4769bc5e2b28cd9afbc81dda2dc5d97fbbc3260e0ef6d27, 0x697a5c76e34b8b4218e9e0f74b5093b29536595fc33033ded4acd75ca798d2a7, 0x34abf00f48cc57df5e22bd7dc36bc43ebebf0272674ae663071ab63ef6728668, 0x514112cb6f1f3602762415f1206be09b97db790d674a878970cf0de883f489ee, 0x8e08c365f1ee4de43191a76d985a604db9f27660c511e82aa1996b0b493f9a6, 0x2670743c7447c9018164bda258a17f7f30290b47f865c237adb418fa6708dac7, 0x105047b7dbf507854e22730073298ce2e659fc66ad39706021fa198baf18c683, 0x3fa64c1df057c2160752bb38bfe14b0c48f88d858ee512b578b5488b9c257abd, 0x6ce1722330062331152770b4ceac8f74fbad3adbee5dffe4c522e7cc0bcc0cc2, 0x3164ce9222648ebfff836f41c17952ceb024506b2590074d8084df6d5a232476, 0x3b8de6c165c8f7aa03a544aecee952a53715408f7d2b507860ad2993a5dca4a2, 0x31956e16b23d83dcc9eb1ffa83667bfd1108693f67f9be2abf23a21f69436a72, 0x511b015f9c44dda796474dc98cb86bc9aa8554a8a61eb365107658040d2a266b, 0x2a384f7074ba64c60c679786b5f3123af0756af493fcdfdea788dd1c12d8f9a4, 0x67cc0a62b37b6b98ba7ff35cc2ad44775fcf145cf684e30d33d637f01eb3d5cd, 0x23a73185b8b1d0e23180d22527c7c2fd1c8f32e8b40d0f43bc702b3756652f00, 0x15716d664a0ba989d3b4ca07442972ab00fc8f4649065f7416e768202d7717e, 0x4082ba3d84ddb1a3821e6541705af0e84f132e76f4799b043fce1412ece86c0b, 0x92e28fc981073bbe0cbf7fdc54d96fc7b9ab97a3111cd9bf8933f1d7b6148e1, 0x469bc6926c48868e4e88698d879a36cc2f2631f44568c4c49ac4f960c5e5c75e, 0x2f6515bb51a1d1bc92af89f64060537d3c57ec4dab480f5e81718e48fa06a88, 0x390c1fbd583fdee2a9d7f3ab15cd0e70e06643939bfa843cd517880cb959163, 0x372e27503759872189c8b6da1db8cf9978b1c22b08fbb09d89a216d2608f364c, 0x3f5b6866ce3d97b695c7278286c1868ec9d73f6d11e6c38eeb60b028cbb53cea, 0x5ca22b97500219c3381fda697452191c519fca0ed4a77997e9493d39efcddf69, 0x3c43d264f112d64047c131e6e0420f19b79a82aec1167577b930c7a805621003, 0x4c05282e150b4269f9249cefdb57e58b97e92fa50cc8fb098862ab019bd8e3e9, 0x5c1c033c502e122ed0597ac40c2579fe70a4afc3c74ee8865a8b7f44b6bd89d1, 0x2ddaace8100bc20c17922a2414b4eb0bb9949550ffed523d7075f24effebd0fb, 0x68d623ffd7e433c40f0b1ca6a3abea1538153e9addb2492790a54002c793e9f7, 0x5eff236cf1d360546e6e261584e88aac3be9c51365c67d5ce1cd13073b2064e5, 0x3ce40309e96a008d0d910907d5004617212015d49f65274939b94e1b8b880d68, 0x42b6f65b59a02b93a06091ec50e883c1e26ed27e6433e21745c9e89a74867b9, 0x72a5aecca841fed388f97f53a5685ac5584bd0c284560e2b08d6ee02c087edb1, 0x5e5cb6e42f1e5897d8d88915217d2307b1943fb257ad9a807707b980ac2a5267, 0x6986c6bdc9d8c55429d28641247cdc1b662b6828403617c5ba7afeac11198fbf, 0x11ed79fae895dbd5c160ab195f8d51c9983502c483749eb80018bb8b389c21b3, 0x4d15e80fba91b9eb0a004d6a2d58b2e444d882bcbc774bdae0c86acaad1c96cd, 0x5de8cdda7a5e702a225d075f70623a9929685cca3feb6afb1d38610ceba355e8, 0x500edc4b96d4f7aff379686b5abb525753416c54523e8ef530554e97dd992e12, 0x666d19dbcf158fbc9c0d86c2a39b9e7b21ed1ca7193d8d22ba6c1d1c1b2092c, 0x419eda377484b9fca8976c34d28c29a216b7e3a4a7acd86a9b38525402f40130, 0x2ff9f1e7f17e6e9466e6310f6b70052607b8dbc299a679af5293ba03cb60d0ee, 0xd733a8ff73cb3446bbf5928444256c9682ec7835141338435ec79a8f50f7f30, 0x41b8c31452a2fff09428642cc1e66aad24efafc3f34b36f82f5cfd1439eb61e2, 0x282e1f246f6c8e6b175d7bd9ca6583a8bf57d0bd2fd13d5a03ea7329dd754c4b, 0x180b424f1fd4d9ba60772372db6e2d1a7d0129701034248ade7f308006072e4d, 0x72801c029e59df994a6499c187b3e0dfabfc20eba239ed08613382322972f44a, 0x39e2ea21bdfa7fd54a5db715d450f65d8d88d220b2dd73d1db530102233c9782, 0x1c05cc6ce5477ff56e0a95b27316575650c01f798d20276c17482008bb2fbbb3, 0x500152dd5c9c441e8eb17f8cb0d492fa60dc33e7f3e4e58d1db8805e4fdea1f7, 0xc72fd30e2c1eae8bbce7ce6d6dc7a18c7742e74b9d6d2fdc1a2260aae34ab4a, 0x6b43c017529440783fb535cb430c9b967e2dfef7525b6604192d15924900404, 0x2ee56778fe93986a379f1650e079c9b7ec23be4f2aa753f27e175e1d3659a1d6, 0x2c98ce30272e409e72aee2360958fb6d674e998f321f76e3050451deaaf72f90, 0x34eb98f208a31694401e18863f5f6d34416c1541eb96166bfc4c26b5c4297a90, 0x4629956d09d4a3076a262289ad107b37ae712ad1a5780c26fa7a3af56a41776b, 0x6a3a44142d154f1f540cd4d23ddf5894c2129d9e167eb1df70d39b1700cbf5ac, 0x1942d47e8bd7bbdfbfdde0737016f9c3ace40f12bafe9654db381ee881bca3a7, 0x15c003cd6c3116a2bb4bf4bbca3314c4098f73395ec99ab3f4089634fa9588f5, 0x13fc041dafe4db83313efc50b14e3b09282025e1c084bcc619b1f2888592a53b, 0x6a5b28e379081c103b5e24979dc8cac35f8d8468fa63591c35736e2755d9b4f3, 0x65a1c2a86de0e5890424870412d6265f72be9608bfac2b8cea265f8e7ae553a2, 0x5028e1d98243e405c49cbc280c6e1e05dc9eba61ace0445f1ebe1e97f15ce9f0, 0x503dfa7ad624e5ee6fef4f97c295c646e161ea4d68e8e08e4816204e335b725c, 0xad29f5ac893c454d9a06111a73e01802a3e12a5c757ea6c811f5240ab2280a0, 0x693054f1c896dc6b8f8fda57b7b6531f38fe08e373f6e1fd7ad48e18db0adba0, 0x1345a3d563d62a899cdc4846152b0e4df6d42fd78653a3af40010bd52c9f015a, 0x4928eb4a8c066de06618d70ea021e7f5a48dc77e46bf88a6b470c693a7e831fe, 0xe30784d1f7404f9e5c4fdfc87e276a3deac00003a35b2c00a1ae466261cabdc, 0xfbdcb711f978795f15d023b49a991054841a0f6fff7ba63fea24cf2b5c406f1, 0x62a6168200f154f71116b6155562e680f2ace63f5a0b142e8d93472068e4b88c, 0x3439c3c83dc4a12f87f752c20ca6eabf2d63c2129948d032a5fc6f4045c8237, 0x59a412a3c34b8df58ebf956143c8cdcaec558aad6489fc01e0a52c176d50a719, 0x1046363ce200eab58ba787b61250310f60d53776440a00fe75a762bd6dbad8a0, 0xebd8c8c39c45a0a6980d55cee55e2e2f2a36aa6da34b4dc1fcdd9c8c2a67a7a, 0xcc4081d3679160813d8c67d1f211f6787bb0835c8c06c5ee3a1c67c2418b104, 0x5041868cfa633f16b46c47c219fb51fc3e276a4651b18e83231303d1d23fbc03, 0x61ddf2c9477e9be06ea0e61698c282549cba66345a7105434a96301345d5bbb5, 0x3247250aca1a1f18a1f086c03a010d54b5ace90fa9bb35c9bdda7a522e901c21, 0x739d37a2b2b0a8607e23be588d7a42613e9b6f5838ad59cad41b689d391b784, 0x165fc7d77714f4bf1e05fdb451a3ad143e0d5165703b70b32b773301af6ebe74, 0x3757c69e0ad3d82a545271555344ac85c03a917ac993e968b77269951ae50813, 0x56dffd220ee99bcfbaa16e82e64f7f659dca7d9461b6aeee7e53cd90833ac36a, 0x37bd47267d0e547907b0b7f08f8517a939bc203d16bdb5f78359804595ee08f7, 0x5fb857b306cec5928644b4e3959c5214429507081c8a4a42e24d6dd0874231ad, 0x362326a65a4d50245d08cc3467bdd9be896f73c96f24e856e56097fc8310e91d, 0x38a9c5b5de1ec1aee08221c61a50eec965e0bb9437b194d8c8b25fb5d37def57, 0x3247686e0bc81a13e65d493c26bf82fafb0960803c928ca6aaaa09350934f8d8, 0x2413368c50545cb28854077f70fc0e39f66e0ffdac76878782da5fa31ae45ba9, 0x6139a86d01751b6ae5c9c1d17697d443b4e30e613ee7f9be4e28a91c843d65e5, 0x3d14321dbc3d19a443971852aab86ed9fcaf725c624efa9cd7d292e5f38b3a58, 0x61fdcdd66efc145e1d4d8f88faf7471c6e00bb8107ea9466606c4905f6a7b9d4, 0x27e962000d1e82f6a41da00a2d618cd8c022e75247252cae9c97e34e6c5bf6cb, 0x174b53f5b1cda19360016b9801df3634984ac5b0ce645a048079719c0b7f622d, 0x213ab0b6cd450ed6d7ac4663044eddbe311ede08d7827f86b9657b382320ecf4, 0x3c7335d1481c5d5a29bc8c408562a9a7b41a9b293fbc4b8e09abbb50966d4cbe, 0x65bed843e69520bae5a6d8a5688dbd822877c6d4b1cc673c17df7c96deb788aa, 0x5a0de0441d5ea62d7f8f6f0a0e66d8e84327ab00213cb9290952968b56cfa81a, 0x3cb1a2e63f4363c839a28e8e1761aabe07908c793cbb93d94cea1674a366624a, 0xbd3cb2ec77a2aa1bbb842ffa0d5a6dcd146eba54d5e7a983c65c699f3f2b9f9, 0x1cd8d39022a6110b13ee1fde68bcb61a425a009e17241bf155756fc52529598c, 0x42a312b851993b3b84ffac6b8e03695e88eb7c6aa2dd3ec60f78a04d7ff05101, 0x4ca7e721ee03bbc617a6355273bdc4ca6be0966b0850f24793850dfd39026b42, 0x372dd338074c9da1983e783a6ddc1fcb43b74a13fe3b4515603bf1a9dfac595f, 0x1456a0cfa4b83cc3d3f84c43558239c87556c95e61257809807783aa2847ef02, 0x5f3e4b97c9ebba593cf6cbb359638b95725c2669bedf53ab5cf29a86377b80e8, 0x2b0dbaea1bf3350e5e2c393606ee95dc203b4a72d15735e796b1362d361cc946, 0xd6ec2f2719bb2d45c478429602987e2f3bc357913c64d7046249015af60a40b, 0x5717c49559a791227fba9d776fa844fc35baeb0c34a358d4a41be900ce8fc774, 0x189e0e536f5d3016032fa26190d6980f708b5fd2c074ffd2307e0fd5c06f5704, 0x7393bdd72d8cdf9ff51c4e979e8c9cbfa94bd7985fe1e0d7dee61573a219b3ab, 0x651610b719ff2a3600aa2e0f9aa448e046cde4471dc0409e0d84363357972789, 0x2327494d121d113f26f8f17666822cf6afa2d90609d0baa03fa554f8674acdce, 0x499ae14385b90a284b1832fadaa1d7ef433b2d20de894296e77762f4409a160f, 0x5d39aabb443f082b1a4685c85b5e3d11f4ce1c6dd164e8ced9271bdb2dbb7aee, 0x1a3f1f938ed5aa31224c05a1cb27d47ba7e66a8dcff295188d8bb6fd97bb91e7, 0x444c37a9a926baa8341f19b4f04b740ebc6631bec5f186765ed99f86a01a4392, 0x6e3ff74b92874733327218fe98c2628d50b6a4c2f2ac50e0e58bec69844fab59, 0x4f9467e09f452c8df420b11bb86763a91f2c058ad1f7dc14a26214419d011500, 0x564957e1ae68226a17ac1f8850dcd6b6df1b9d8948332567649eb0485e5259af, 0x172dd9f1a8b27182c397b8c6841b5a50872d5df3868c2bbb156459b9ec90d808, 0x155a03c779ebb05f86081758fdf0e0bc2d735c34c448eb83c64942e6b4cfc94, 0x44cf9de2f6ef6890b58f9eddfb0db29c40fb57ecb0403d54b730588684049f31, 0xd5e4c8ab6f493bd3249655ce147c38763efff166e2ad4ed93b15522bfa8cbdb, 0x4827a633bf047509c46b43717ba4fc4d6b29ccdcfe5e7b6b2dd3c4f24b4f13d, 0x41ec5f07ef1467596e4dc4eabfc0301b89b3522e8bd056de9472724ca1774b3b, 0x1903ce1c72827ba32f827c640e0148e511c05f80d1984679ece9febdcd63dc52, 0x507b67a31a6da0736a7ba08cec937c30e5fe60f4459eb7f9a82fe5ea00e9bd3a, 0x3b6cfbf8bfb9a0dbce2a237efa02a220a7adb47482de68308a288cb385426cd5, 0x497a663d975423151e24d9c0377f9e837ec34921c0b650dce1bc8eaf78b095d0, 0x100951e678183d49f8900d3708b6d672a72db8661363de8fcf9d6944ee41a383, 0x2083dd2f3308ceba572c599d32d195495fe6ead69703687d81da0c27110267c1, 0x25bc15c7931ee8e34810d66478bef95747362d3e426f989fb553e06fb4fba674, 0x3f40fd93d854d37de293f4730aa3cdb0b6ceeffb393f2dbbcea4245ba8777e48, 0x4c4b63fe44fc9aaba3e00f511346f299af6795ea59a8626f736a8010cf54951e, 0x6856d866d8d540d4e09b0ff93fefd5059876c81360343c3138d5a783dd71b713, 0x54dff64b9e6c4a33a4a24c7d15b673d05697aa18f7846fc60d33c50bd02a88a, 0x5ae2416e1d4ac939b92fd25eb16813db1f7cdf17b01aea9ec76dff2aecd07e0, 0x1582d659bea05240a23d5da6de83fd0e04a64ebc9126fd24078f34dcc080bd5, 0x69aecb6f2fc0e9e710c93820be84f13aabda4180fe41bc77408afcaa0cdaef62, 0x60f0466ecb4d0392f967219f77000bc898908e051cb0a2a39cd490b9560eb5cf, 0x269793aec9690fe6beeae6d84ab52f11a403e000c7b98e684386d54da6b2eedd, 0x1a160b88d9619fa096e8cf0d406e0ad2e0ce77f962e6a1e3281307884aefac2f, 0x3adb2fc4560700b0fb7ae0bda7226bdd2dc19c0a937b78972be57f01ede2d913, 0x8ffd6122c964d0dd44974009d9f94a9c3d3bb9c6ca09c95f5316b3e28b79b90, 0x5af84cfe5071fe198c099251b58ca76d1a5da66ac7f154f43a0521916d52210b, 0x788dec0fdeed2803cbcc1d8e8fd11597188a7174f6449abe7eba49536b7ed5, 0x5a88efb06be010ba626de8fdeda4f06b6c3e696a9b5486b27789b435253b6d91, 0x48d4424b8531502cd55bcbb9db049643bdc9546eb6c8957dcad0fba57e90bcd8, 0xde214edd1df3ee79535843bd7145fabdcef84e57c2278544cb188915803305b, 0x117982db9ab37621c472bb9da7e97f5c1c7f4d859f6da0e4fd249dadd698d99f, 0x4ca5fe48d8fafb2d92ee9910b2d37787148e4c50f8788654dd6139371bfed09a, 0x1362bee35a6643e82898e690361eb856f918531f2dac0d66383ab66f952b18ba, 0x69e77cbc7e95e850500dce0c7c81030a80609b1a77124e3b59c0891fb23a36ec, 0x5309da75ffce18fe04383611434fd37a08b4eef5bde9bbff430a586a6b1fdcc1, 0x65bb90f94f27e652ddd0f47ce04f74611dca495b2f13e156d849245d61979dc8, 0x6a3237b25f96538c36416fb099ab78db303e66c2eeaecf2de6e45fec65e3144c, 0x2f8027e0776e3a6d76a8262bfbd895ba02f0d17cc4a57460d9ae866dcb6f6bb3, 0x5835d102e7b6b8ade955039f2ce7f1cc03e4b9abfbed35c0a95d173af4e06e7b, 0x731caa371ca6ad6da0b0cad823daaec5545e454b1e248e1c70333bf2f7ba2314, 0x63f148ffda9eb7b48407a7f9d6c5a463094c03916d25a5c93cda72ca2a62e6c9, 0x252a71a20db9d604484119016dd641a5628e351c8bb243b4d0b46d4cae2296e1, 0x66ea78eb2c653bd91844aac464e58c7bcd29158f8bd12298470da054d48a1544, 0x658d35cf741dad0e8967035c3f4227f737e1d4d0032ca07b67238e67cfda463f, 0x6ed25a029616bfd4c0d504a121e5ec0686fb250dbac15c19bfc931a54279781d, 0x1350740ecb58855634ebaa9fa05178429ff0dd9fed8137d2002ff5ee4f697022, 0x1fbe1b2ce846a3a9ed9acd2049c63ab5085ed90330e6755830dff88a2d9ad0ed, 0x95225a17c8c5d3d56cf6eabeb58ad8500b5bfd0856c2aa7eb88b224fb8f0c7a, 0x1c92d3a168f3146a01b3b488250e964f8fb05757a21415b38a42c01d566c320f, 0x508a12b397b972195442632a6437fceefef367b8b8a6b0c0f978d6b436f60d2d, 0xcb7d1bc75d733b6dbb7b3396b62ea5228dfabeb0816d6bd0ae978554056e971, 0x1ae4abc3de15f6cf9aaa3a8dbc875c16d5048796ba8f431fdb0f49fd203e26e7, 0x5e7afb468b902471cc59f495a3b5b714ee647de4b2369e23bf90d48da95278b1, 0x5a5fdf83fbd2ad6cb2db7f5bc066614a0c6875f7bce852654db0f0f43cc25bbb, 0x17b93f8c64aab588409462be889dbba82972ce194ec7758fbbe2c5c030facc88, 0x1b15a2eed90b9064945a69110066bb9e96ce9499eb5bc2b3fbe5ed1db033f04f, 0x52e31d9e5f329a48206713c32a1b3672fc2570e8919dcb03000446df33eb87fd, 0x72bb6a22aaecd84f17327b91764418ade8ffe72c2de1eb2c4672f42854888646, 0x81eac1ea78718e0db471f41ff55a98d09f8f974b086fe65b51f851a29357c53, 0x668527357b79f66c44e1677566a6b00beb0e180c688037e69c8ea7ad897b6fdd, 0x4e51fcc5ec643d15ae6f2e6a37ab18e6c6a5afe14f41b287fda57f60627900e5, 0x56a255b3177dfc696dca98758aad33c4540a5e958e472c5d89676182742723ea, 0xf38c74eb08029c2138031b2db7d1519e56a5557c32688a31193fe794eae9421, 0xf611a3b60239d1f60f6d51a7bd93b38c6bac7fdf2249dfe5adf4acf32d9f863, 0x3b572a9e93b53136b848a557879f1a415cabb7e59c8fc9d49d7c53bde079cf08, 0x21fb9c5f5b20fc8e243620e2ecc65345bb18f22c16e3f5324dbd96e5a953cf42, 0x14b5fb210dfcda7ccf7f93d15ed4bf481d8d240f43ad7cdb3bc59c385632272d, 0x8ee4f59282704ddaa5f5a76205f6cb21a79d3a5992e5c45b840186308560a8f, 0x6c0154f9fe9b0b9c75611bef296da33a2ed4ca3f5fc6833cd2ec5d135fcb17f9, 0x44b83690212402372aa0d5ba74f0557b550e88876b9126f71814a0aeb348997a, 0x649b3dee8bbd6d0b7a08f0ef9372442986aaf2909a5bff40256575479abd0aec, 0x5361f321f98a3732fdc4fc0297585a108c2897a6f310b3fba6f9dad665341481, 0x71a885b19dc240e204621a6abb0343060431518df7076b5adbfcbe0112c068eb, 0x49c599c1f603b7cdfc8f868f2b95bee42ccf07e83366c3b05fe33d9dbab48962, 0x52c24cbfce40c504cdf15b6bd6a399e51aebe4d3c15c4f14954ed8fd7d59f0d2, 0x5cf0ab192e1960d378666ea5c8c81adcc7f24beea5a6b66fb413c398986613e, 0x61ca09215b40963c05648b72fdf2abc80e73930c57943cebcf35f86a04800a42, 0x1f736d68346f75a779f411369348e65d6185d22b2de8dc1ee605ba3539f7fabe, 0x5be314d62f54698ff2361223e0b2012496899a867a115d4aca52a06d71b8d636, 0x35fd7093d4b1de8f156f595eccc170a0121d71919f829de32ba1f6fcd3c57421, 0x71297bbb925ae5eaa0a112ad256cd0431c651b63078fb509c72dae7278164021, 0x61be00e7358333031e068d53c8dc8424089700226d250c2d9dac8689ff3cdae7, 0x1809bb6c0ec4b53feba03b3dcc41fe5266b0996d5965b3f4592a82f1a0dea711, 0x4d90dc6e63882d7b340e1cc18731c14861ade9626f9c6310ea1fcadf97ee995e, 0x467e2a601dfa2f3bb9d7516f088e5fc0e856c8f8611d0d48712b0db96089a125, 0x1a30033e4ab980965e3d38ba7219aee97e93991c7286cfaee0f599f4887f9797, 0x3ee66183c304de967357ee7166d0c765fe748605a3b49be63d79aeb433ceefea, 0x6d1cdb888cc7d37e8114d0d02de3f8c9ac8b5eae8d0a873cbc818d2cf4ba3a2b, 0x4eb1d8e3af0279b334c36943e74dc30737fc46491e540a99f179e28d59a8bafc, 0x412bda31e04d4bf3b1e44052e09a633e1d4a01eac23b89d9d0f86fdfe3508ef9, 0x3e5e060f662b797be5418a5f31a3235701bce8121420b65bb8202d7b015c1ee0, 0x2f3034ab6fea439bf7d0059d19134fb0091b9fc2aea072fea2ed7d590f30e464, 0x2d213fc0655adeefa36b87ec592ecf612b41f0d4223e959066fad8da2a6c7fad, 0x66fab6a5ed60a55d1dc6e8fde4bc69da9d0ca13ffb6eb1842654e785180562e, 0x2c33d7671e798a1f890d0b2942291242cf331889858d60a192336bd77554e998, 0x4f0f367e0d156338035a729020483dc1f6bd9671b1b794fc49d899b698b0fe0f, 0x1b3842e88f57a06b12b8b85b5260c66dbb8e81e75b3c556870cc86d040a7bf, 0x5e77045257f51db455424f7c60b38f2c435903bd78c4c19caaa6109d278107d0, 0x4095ecbc230dac845d52c913cc413e19a54bf489b70feace006bcbdf71f2ae66, 0x5ab3e2237aa86d8f21793829ee9c74bc2d5787dc76e0f5b8cba7033686643c96, 0x32157a4f0bc08da9379c51ea23f1c2854ed30e4f64ee90a283d48596c6f464e3, 0x36d37e8d060b6466ffb93a60b33c9a3528d983c149e91a6c73bbbbe09368d411, 0x3a08c9f919262ef6dec04b8002570b5b61bbff1225876f70911a3bc1c214c4cb, 0x53d997a8b8c5bb1b880abc50a270ef543a6151d60d6657d4b55c4fe8f7833e82, 0x30db3fda2d75fa1234aa433dc0761c470f9dabae75c96a1b7b3512c9648973f3, 0x13d78e5f26a1bc785f408d4244ecc0e797ffc8994259885489619581c23259d6, 0xdba320949cae317bdf391dbdca6ad71d5b6a5e4137e8a25d59c730589b0e078, 0x265678048f8cc5e412b15584998be2ddb7afe932f4c21ae5e4ed266f5b53c851, 0x475db29088fc8eafee60d85e5515d7464eba5cbd921f8ae24d9f2ef8bb8a189f, 0x441a163bb3b53bcd54eeb8866903d734196c1c03dd902a7c0d747091e8a09a47, 0x73151ebcdd45dcce05a4329506f8d619d3f9c20ad73240523fa12ee9c81f5791, 0x6bd91048db5ec67fe372c68ce470efd86ccab800538bb79a76881bce917eb04b, 0x4d2ccef3a3301ff942c865d6db5e98a1590b35f5b1543ca1301557b872ee3120, 0x6449be5673605d5667851473d28c71fb43ac1b2ae504322eb9110a4fe83b150f, 0x52e725f8ecd921b71b6e9590d425f72a48480139952a1f4d20a0c512d7faa98e, 0x43dfae7809fb43b03757c4631f15810377e8d3ba492c32cfc7daa7a9dd55f021, 0x40d223ecaae740a74564f1b76a46d1c3d5b7b18475894258088f797be23f91cb, 0x105c2a6e9d273eb306b0219aaf80c661ef10c5e3f02f0a1f06ae85046466e12f, 0x5b72b394e9ba283b8bb31bbe54bd95d2467ca5f7c2c59e26376c3fbecde140c6, 0x4386093d0b1eb0588d1e40794346e749829bf714876e8e22fc79ab81b477cce4, 0x433049052ca0f88e19cb69817f435d75a05c9ab9ebcb6966405f0e049db43807, 0x21fae9604181c739cd10211b1cd072ff757eb0c949d64f66d776e7617ea3e0a5, 0x15cac4e030c08cb3c9dc26af3426de32e6ebcc66478544dc78a9fe046036b958, 0x43fe8bd4a0cee86ae2abb7e7033a0f7c4ec2e238b8a7aae5f736650e979ba878, 0x1ad35100cc181211ab397653640686787dc790108ca9246182bf2cf35773aa91, 0x175d6badcda1650a9c4cdc963eb25f3ce4c805565b83b837b44bc851b3ff9f0, 0x6abf23908045c30984c11142eb0362085643f4180b860a6f9dd4fcc7c27cc7e6, 0x1c7f884d3a21231d22101684325b2ad33cb405f48c6b9a508467a519666990cd, 0x344e66bc04af7052ec703eb7625734639e4f69cfeb07b8cb03ea03946b923789, 0x23782f1908a899f0371f65430d8c5adb918658ffd8ef9c5bf04e16568997f26, 0x3d22c0880dbcc7d98b5d1060624bba83d47536b9c09106d33a4e97bfb93fee5e, 0x58315d2b99182ad79948a9a23889aa555d01b6345ba5a7ac8d14efe7559f060c, 0x4c0d1c415932466c840416ba7a81226b59e4178ce40bcc955f13dbc7278eb13b, 0x35eae0cc30a3a6ffead261784b34dc7c159f3c5a5ed70aed7253c4449a2a1ff6, 0x35eb848254ddc76f69a7ec4fa25a2cf632e3299d9861ca78482f6550126389f8, 0x312db34fe400b18aaa14022b418b31062d87d8ac21635d98ba8e22eac19a03dd, 0x6423b1170f21e9eba05222e292703b56b7d15cd66d4cee1b18c64330237fe084, 0x512559bbf8553979a4305c4780d7923d1ed712d8b777949be6bd4297124691be, 0x673a6a1f893e3e58424a75bf938a8883815ace52ddb4784fe17928492c88c11c, 0x6d45302852aee06b5657b848c74d77267a3187ca7e07b55961fdcfa19a2d0ee1, 0x7228dbb0852b40ec25b11d4b001f024e2b3ca6f988d3474673487a9b16b7dae1, 0x41e85e3801765840e720d83ba52a4c4e5a9a15cc30fc71ceca911e88a711f250, 0x5db479672fde3936bef08fe6cbb8b0695be7911a8b097393cce8012dc190ee26, 0x17a5bba4c26db1f7a5cc9ad1c2ab96753eec0d801727a32e069d30301f997c07, 0x709ce2debbfa6be85a16bddf52a88bf1fd712f9e195cc5dd477b783312c72bf8, 0x73d90dd70bc28c3c25f211dc538ca1e68f949289c85bd75a81898b023bd176c4, 0x5e37a17cc872863faf6f556a97c73afa8a3ff8fe97d83e6096b54612bd9a6d4d, 0x50687c6cec3d8576812645a234781457e031775100b178148585ea343a03cf0a, 0x27cdd1a10c9869fe84a718483c8f049c4e6cee5c5daaa6380a1d19b7a7dccd8d, 0x2914609f97a599e7e84d6dcbc44b2eb599261fa66e249731ee01a6e485b7af75, 0x4d82f2bd0e567721e4e55536b193d950bc7a61cb922bb11b2dcefbbeb955c2d9, 0x681e4101bb68475114431cdde600ce4da428a4080e59e395f859df7d884647af, 0x28518b758b70275c92989d22fd0193e131837bf4c30b61e0b4a4e42cdfd0008c, 0x599857e91da09a07bb0fc6c546c51f06f882a389df48f579dafb21b8fae1bb46, 0x5bee779f181184c69a3ee5734533773e4abafad15d5fb062f3aeec602cfe839a, 0x6eea2facdb683207b4b41225bfd8aff3ecb99df345f3587166208699f12e57d4, 0x3bc06ed9fb4decf0ddc47c91fb657302c551063212df1d00b669011afe45d99c, 0x6029c134e120fdb903e84294048d7c7542f5b448bd2b5fc31074fb1f8a822b05, 0xd601de18427f9a995cb63ee03d4c157b3a1829a09cda8e17c7646003ea253eb, 0xf43970bcbf5a7cefc2746beb9217144d06c2b096aeba34b15c6c6f1911683c1, 0x1ae8fa92e592e8a2f3ebf1aa307801ed507b5b47a9f8c530365f6bba3d12e156, 0x415ca8c53d7202e4b3690ee4ceaf82dc221e0d95d3e975b28165969b55ef6336, 0x33e98e204d33a70d17aaf70f8382232c8db1d0b112c16c4114c19d35174ebfa9, 0x4eee440b1788d4eeb4b731538bc9c2ce72df786b5dbfa3417cebf15695899f6b, 0x296d3fc66035ca110a93384cfc2bb780d57202e921f55bd25bffdd70d07857c0, 0x1156991165920c8356059860d0b6b27cdf058451e50b4253f6cfe9cdc5b95116, 0x3754441983b3c50a9aee1af98ced5d9f12002df09437b977c2fbfbbedbc42a0d, 0x6db7557ca8cf5e33b9ffe9d48bac8dc84a7d8d2c3e4e91c52bb45d298ca1b0fa, 0x481db5734b99bd8dd928ceb7d8294591481470587179330b6fb74c6b93e5930d, 0x2f16c6fa78c2f7863525306e7443ec86304014e9b32f9887798bafb1997e7c1, 0x502fd1b637c3cdbd62a1cd7d1aa90c2399a562e69813d1ea729447db6fa2f843, 0x4c502586a68ac3389db20f977b8dd1068a788068330174fcef8b9e7ddef77212, 0x73de6c5bf326a64c07db829bbc09908411ffb9b37ba7d7c91d06d5bbaa2f6eed, 0x1c3b2de1be7a9f4e36164be788574de7564e41f816134ffa03fb5fb254f64b8, 0x3ab9e01bc627bf5f4e0f6d15e51d5e137f9e80a66a68d92c8fcd4c6662021883, 0x6392cda99a5d1bf9df904bd15ff753543490e49a1977cd45c0b913211b6dbdeb, 0x4eb467294dd9840fd1d7f2792a2630736133b0400d906b526fc7f4cafb381de4, 0x2d58071377024569f2c8371ac8bece0cc4cc87563b44aee204f0089e085df470, 0x3869fd123fed880eed01ac18d012e6911e4439ebf1d4affaa7bc144b96d53113, 0xf46c0b1916313bd65822c6f8a658aee817842d719e6d4237277d4094a86d07e, 0x3fc082b54d7a2757d0584aeaaad21bc9f9c1ef149c38f7eccd1f52c584993f41, 0x205bca06b698387539feaa0b090e80d56654336ba83379a5ad9dee552b4730ad, 0x1e29c8ccba27ddc75ba4fe53fe24037c6e096c9bd438ac7a5877fe50c743c99, 0x3840d95d9e7da2c4bfd04f1994ec1e0bb6a4c14b7bb7f2af63be552145635876, 0x263ebd92c682b9fbe569077c5856ee84adb19d592a8055565959a95bbefdd91e, 0xa90048fe725b6718e5c9122d53e52c1ee9b930b325ba14f6c0da2671e857837, 0x2e8ba5ad375d1fac56ea7a9bc06a965431c280f6c17067dab978473e12f496e7, 0x30d2f088f70926be586c84582eeed279bed887e72f1dfe0efc3765cf42ca03a, 0x523f8d524b81ab43f3d56d7ea5d17886cd3736d4458a5136f187d094001d096d, 0x510f0874c7ac59543ee67defc7c5c05ffa78763a66f2224e230ace457f3e38ba, 0x7ea05571c2ae532fa6077c5fcea58708afef008c781700b6348c72519da0b2e, 0x2acdd6e31252ad389778663599b221d2c066e503b466b08332872552ac6b823d, 0x295a32edfd0433a4a5d18b4966720442180dadb0bafa7d678b9dab42945da617, 0x62bcfa86690d8c678a426555dd0a48e435c46e1a437cf493302fc687cc4d9138, 0x21d0e77c13c4e99c6602f00f7dfaf7c56aad2ca0c2f9cfce2b596edffecdbfd3, 0x54b5f0143ce273b7878117879c6baa148b12e5adbefba79a3df118a242a7c5f9, 0x61cef0498ef6584b2e44854a954b8e994bf7da4670c14b95df8729c4f0cd0dee, 0xf884ed190599a0494f1eafccd09c2604eab7b1fc50cf1fcc7339b060a5236bd, 0x6f7bde7cf073b1a15d6d725433b2ebbb20428ad196f724bbb17665b2249885d, 0x65a5c579cd95f5aa5e4e42cdb0bea9de142e4960fe6ad8b3ac38e406758b4fee, 0x5e67b13949d3b512c6ce831d7de9529345fcb6d6c984f8502919f70c24a26a0e, 0x3adceef808bbdc37441124991311aa63f4cf45610fa042f035d1247aa3e7ccaa, 0x6ea1f6c64831a207c65601206fca1e8d6d2255e2bfb91433eec0d22bb4a3a822, 0x517245b24060c5625cbc198b0779155991d35e2cc58259d67afb5205202885e3, 0x6b74111a075062e8a236ac51e07bce361510fad10c3b18d31e0e9a60421df694, 0x6b3bfa89ae62ea0a99b309be9c85dd2cb0cd043905be5c619c745ef1eae3a982, 0x3755c544d167e599173ee114f7af79fe4c860b4895d0782b2f4452e934016f33, 0x70d7fed7567d02fb322ce8b6748c193b18a6eb022b27a8cbe9feb9d72e3b872, 0x1aeceaf77e88fd76078b7f3cf97b7026b2f07f36abc55d801c3a426dc4073968, 0x34e4f8148322a60ee74865d1f92430e1a9a14f6eed1de40da81b615a06ef2947, 0xb9f0aebf922c51a72358ccd34b77d5951671d14a6e0093d7aece3bf67dadb29, 0x136a7a7159f28a83cbffd76286f49f55457a2f41280acafefd1e4b273fc0b12d, 0x46eef80b9f0cfd24700fa840b12b23edf443cc9f5bc4bbf7e3ba95b89bedc516, 0x1dd1dd9ef7311f32991967609b50e89dc8f237e3d4d5bfd347b4a7d5b5eca5ed, 0x6495d12a71a21e7d0c3560757e4bf7b64501d9923a855d2f085b386e80daf640, 0x523220be2844b9615466ba761c2069c511e412771783adf0f7a46e773aed0fcc, 0xa9866ba2436090c6f3ce0657bb3742dfc3cbb022c9478fdb6f5f2acff9b9cb8, 0x2c569cec3f85a5be43947400d6cdd60b453d8369f37d95f354eecc2b2acbeba3, 0x72d6816931ee06897c7745810d5d6fb21878467f7caf0aa4a4ec9c8f1445d0c2, 0x4f711ca0b130d564360b8dd1e79e06f426a43f4841ae4407935d73bf56ef7b7a, 0x5213bf69aa2ffe56e808ff2f27b4ac05c977324ccbdb192dc39e4d8949f1dde4, 0x44127286102c8fa637934177844248b3d7a6a3c9873baf0e3f29e82316c27e03, 0x4e3dc2f1d03170fc9892a29c41e6efd89349a2f28f1a5e5bdb8da4db12251e59, 0xbcc4f57453501a8b169a009c69a9f7ffccd309c4521b07610dd5a89772fd9a0, 0x2804478dad153002d6fe18458e28bb74c9dad5c7966521da92359ad5c116562, 0x32fa3937f1fae02bd0e08a54e13c383a46558a7506e81fb6feb15ff994540b26, 0x428e4e67ae122126ec59e7cf1f7c0bb4b58c522eb955af5c22d0f411598b8539, 0x54c92d2033f433a36029e3f2e303fd649a0026e57972ae66402d4afa13010729, 0x7d1dfae4ee63614381e76db5ee20a5d4f46834a78b0e9d95f0e869982bdff8d, 0x22d032de57240156e9db0315880f4f0fbca2668e2bc1c3aacdf03d9249b1c1f4, 0x368641d75ea016f3d3a11866c679027247d9d248358520b590d5f4fbc0884fa, 0x2e303ee7f721227058f320675f09e2c89073f663d44c5897136e6c6f86489d02, 0x46bb3b08ef31f638ce7fbd3c8ed724335121245269b2e55ef3da546c5cf10821, 0x7f6924d42753595eb91d210e9bfec0c0796802099926f33da1518305c3e02ed, 0x3aac2f87d952ce15f39a6b61a12a9d7b0afc800221c9eb819f85eca2e37d3a42, 0x1e44031bcad52ae1f5f37348d87cce9ecd6a9e6bce5f598a6080e1857f80e261, 0x3d0bdee0a7c9fce0497bf91d63c5946d194f4822563966267e70741833f8f388, 0x4690fcc8cd92d7b9ac8808772343ca187d4f29b6e21cf14bcfba6d099825c1dc, 0x906d978e76d0f18ee795d6f111f658bfe274ece80623fd894c76fee6a063af4, 0x811dc17685c7e0af11270c83b8506619bd850329d4c233ddc17707ef493f3de, 0x32db5d26e1e4b84c555bd9209c183c14262bef6c18cb8aa7fa29bdb539be0af4, 0x3633198df16690033d4168dea616d363a69a36b45bf6d490ea11f7056fade518, 0xd2484383d51dce037189583916ba12b50505719704c8be80e046840cd8c4e4b, 0x40679acc588bafca418b55eed4f4292ef4deade3a6d59b77e930e98afd5eb64a, 0x5a8281f90c5a946bfc7642b58eff4f541b056937a41b0708c359d45b242baf98, 0x67c5be24c13dc0c9285248aa3bc9d2ba6bd987c924fbba115fa2baca1384efdd, 0x450d69df498d0e0f5c34933f7f2768024942f3e9eb9eb2ca2e02754b4552494d, 0x1c4a34baa07a68da2c5e3ba5cb7524f2ee28fc0f6bc11d1eacc1611ea3ece5b, 0x731dcd6a5cb745bfb38d82019146955f8d192eaa4553c9ef8963ebef53689f59, 0x57fe3320038c93223a24bf5d1ed2680a90318e0b88ba672c6a7e11090dfb410e, 0x5137e958d3ed7e1ffb4a1af29e00b6f5e4a6b4925d9fcc0ed36729aa155b9fde, 0x30ce2ce08b50bdbb7682342a9e3da26bfbd38e84b5df2e3e535ad7609f415afd, 0x5ebaabc298258f907e42eefc1ae793fc63f4062dd9b850b3e0f5f00f078caac2, 0x63d01c4c285c0a825c5436a93b3efc6ffd54bb38e855d095e2ccff59d05605cf, 0x4e26968f0391a4a26d65d4e5d1f6ae6b7e57e2e391630e253a641507d4a7fdb6, 0xfe1268dfb4e8fd48d655aef3146ff69446729ef98b435755aaddeadc498e63e, 0x15623c09b3157bb251258df87cb4edf583f69f1d40d2f2ae5c139fd1d9705b37, 0xa4358d713455ce935e64030aa7187f7517e3e9d04e8a368f04780ace252d79c, 0x2299b51f5dd4bed607e11c3b0f5aa26e2edda541e7351bda6e4a31fd1e515092, 0x36e8b10e3109c814d371e3fed7bef333f7b146deca44f063c127f298bb7245f8, 0x6ea1540fb6538ef7cbcefbfa988e8339e12f8b210d831b95751f7f64e4e4f2ef, 0x1e54c0bedea5eefc4219f198be09a448a22522e97930a437a168ee7eabb25c1, 0x53dd28458fe385dfc152977041a884d6585d16d4fdcf0b117d61e460e584f1, 0x75100c9ab3c741df5ee34f86d60f8596c99a1c6e3c0129e7bdb49ac1fed4d57, 0x6ec77782a1fe0e1cafafa76bca56d6d37ff5ecb9f11cc774c35c424e012e6fd2, 0x2d8b7e20d2faa18fdb4f916079464d5cd613076a2732124f4475d941c51a2c84, 0x53c3004bb83fd39f3b17de4af940da9ee6b38161608b2c3ac23a1df29303ed04, 0xa1eb7299ce77fedc3a76dc4591f4ebd1d4110849135867e699df1df65a8d908, 0x1f27742952f8633f8b8e94743fdc66e84b38dfcae99e36425c72f15a73287699, 0x336d447f3726ac5db34d9fc31f06149ccf1e2786e945b5f94359a2def3f622f1, 0x5bde565dddc25d58e54448139fc25057258348c15d54372fe5585dda6f0707eb, 0x25828916bc85276bc93fc5d4bda624fcb08e451ea17f9982bf57bbe2ddc874a9, 0x36965c61e03c5b15ae8453278f4a64fd63981a14314a6736542c19369d5a0346, 0x367f85b248c7060f2f8bc9daf110f3b7a559e7d6b38d881ffebaafaedf40b2a6, 0x5737719a1a80984b1c103ee10247975bc96a085f65b42d5ed122209714b9c4ad, 0x3905a7b70365c22b0e415468aa724b8fe68943d7f66316cc31fb5ce15806cc41, 0x6475862693f5cd6d6115890c4f5d44fb70a4c05aa6eb3e728ce62fdab972e155, 0x22e6a165ab9a3e76b8bcf3cae5a931236f1ef93f3e138011a130ca74cf0dc640, 0x3e2bc7c4716c051d2a3f8bc02d99ea437029d9ece4a4fa7a102253b85a56ba3c, 0x15c5d72ff5d692ac28c5018e52eda554be597891aa9aebc304b62489d05627ba, 0x35a12cd637ba643d14e66959dd408873936b3803ced9c0075aaf278c4f6caae9, 0x4cd87cff8992ff0da624f0a4b8f4629ef3b21166cee5354fdd78db1003e80b2f, 0x12e438bdb4a4959910bd50d2327278f5ee5eab08865efe813a6c1acd88206986, 0x4ce9f6088b1bb760c6430a8b9a6b29187673d9344272bf13827cecbc82daa822, 0x2b4d4135232722fcdff71e68c4054025434e95664a551a5012f1f4d101f548b2, 0x59b7478cbe4b3b3d298de143d2b936f2d3aef45cd4dd2f28fc8b0005de11e42a, 0x3e2e8b11dae9b636c134754bae703df054e1af5a262ed636aa24646b912f5a2d, 0x10cfd8f0a2f81f36ac708ff436942fb03558d91f00f83f14ac558c1699bee2fe, 0x6860976d1eb4b288f111cd338046dc114f831a1fdc50f041b3e4001159d4f80a, 0x2bd2838b6d116adcaecabbd2a81cb5ce736ac5f79df3733d2cb73dacff1df37d, 0x1a207a1495c96e520d954db20cec2ee1072f65c4e56a431072cfbdf348094233, 0x2187c61eb591247ecc912ed48a9c76ebf9c02997fc46015d53e5479376dfb7f1, 0x2ffc6da7a127c2169aa647345b6bf4f24e2b195badfdf4494a7e2e06bfd777ee, 0x564c553a5775278703776c8fb3874aa208f6f393dde7ee327bb09530621a366d, 0x4134cbc7dfd2d9d61eeb8ff0d6f1feb28626fa114fed65a5dd08846e04affb0e, 0x26bb696667a2d9a3ee7eecc6e29aaf6e167c18253927208b397665eb883ec0d5, 0xd4f2e5e69a4cd0819c035e0ac31c301d4951a917900addd30c3bc10242112c5, 0x365c9c6d7434cb9ae14774b4deb74edf3f3978ef52612095d9fb3115b509975e, 0x68a5107dfa300f2a91a4fdbee5b6598b3877d686c5a4d8ce60c76213c6ba72d8, 0x6fe6140a09f99f8c9001c0501c7b4d6d461765111c0236d7c0cc4ecea5a19d52, 0x33fb3ddcc1f2eb7aebb643433147615aa483e484428ff5f9b4d0d930c0731e31, 0x6de70d35b5045fb6357a83b8726dfa7ab7a092feda44a6dcba3af4550cf28f0e, 0x20654163e0192a8a8f239c0ff45226667bd59d27b92b776eb3a1f9fb21921fb, 0x227858b1b904ef0e4c2ab4846c752e173862840092704f1b1485b503f2782831, 0x37669e6881da747bfc5bc165d78eadfc50d625336ace36597b6ea546729d06cd, 0x446353f905ae0cc2ba8dd577fcd48c67ed3d67101ee50c5830456bea4d2c63b5, 0x4251b4c002d63dc7786efc27c7b3f805dee3695d175ffa7a2f7e19f87b60d127, 0xc20a0a67531d9eca7d00be752ecf3953e5bc0f57f75092d00cfb75b551c4da, 0x6f878cd2d808366d6ab9af7b1044ef8584facaba5a90b748b25354aa72275b37, 0x2e93ef2eddddf381119bd72e078777bb3d7a70764b95bf0d5aa11c5eaa0edeeb, 0x49a493f7d064b8283dc81af471b2173e865bd122929ec1c82c6cc6ee0bb056a0, 0x586bf16dea89b881a67486784d2d73ef45ec8e4410edff5ed67ff7496a9a6608, 0xcd3acc07cd4671bde2cbd47434dd08358601372c892357636220926ea5ae933, 0x60114d5e4885326b90e90c70f8983e6891d408c1a154b9ac6a462af07bbb2c4c, 0x4843965ea18e7ff0f234d6e124cc331e33aaa1ed0ec6e66b4efffdf20bad6049, 0x6a1ec3910ea9050edc44982563ec9b2f424ff4606b9e250285603d5549772dbe, 0x48cd3a35b44354d56ea78d7b7a195e820156372ced8f38149edc57b65646bc0c, 0x45aea881c16a873380f59e521237128773bf880dfdfa438d84ad1262f8c36dac, 0x4ee76de6986301c8fde4faaceb96f10d0e72dc74db736c7defeeb3ff70b82ba1, 0x4524e8b72a7e2c5e27d7c61d1fa1df5672b66b07475e5a060838b7be01473375, 0x7472a46082b1c76d4b946ac8ac5f4e5d11b597babc963b24b687548ba575294, 0x1b769eaa007e523ca055d54ac3bad401f275ff7784947c52f92bfd03cf21c068, 0x56b15260a7cf7b45606b4af480646067caaedd43e64c974df5d02fd5bede12de, 0x11d8a94acbeee06a30dd360391ce8a41bf8d89bb440cfda77535908d6d8c1bba, 0x193c5ad12bb5d852a1b674f1daec2183a5c67715f0e355496e0e5d7dad111492, 0x557aad4c0a992dadc8485a64ca138508a998d0aa9ec63553b87c109aa83e024c, 0x3f26686f3c384929a1729b07bbd1d8d279c5a614b3512571ce84261d2f82dbc9, 0xdbcd1194c2c3138ac06c48bbaf4a94e6af29a31b71d9a0c38b829af2bf16103, 0x55e94002737d024463ca70b7757f035f646dde575e0a6b3383d749d2b1ed605d, 0x5aa4aa075766ab45c0072b884223f6d9f515b937f57a26127c38b4003e2d0597, 0x1e90bd81170c562649d18d4e175f0fd169b7aeb5c372ec884146df2b9f7f238e, 0x3cff65b9ef2193d863c2add0d1ea20c028dec3156cde6a4f504e07bf1479b9e4, 0x54d9de45526a3e840c8cc4402ffaeb6178c33d19e0f11d3ac79fc95d09a08a81, 0x25a19c46bf2b5f90fa00ea3077c0c426aa4e9f39be02c96690882f14aaef5020, 0x3ce5ab5f4b8a9ff7356c04b7d4303843f983fb2d5eacf020a30f2eac29dfe4f7, 0x456813b5cb7d0f15701c817f69f8ef8326c375a5e0a358d7fea7cd2a953515c3, 0xcc7fa13e5fecdbd07f377166f7ac38c1f2dd030eff588a1f50b82f7e617584e, 0x102b9dc08edd52b9c875f90514e6636510a8d4ea9463491c2fbaee1111345a58, 0x6261a0f4bc0053e84147b40e5e6d4cf950dd461e5d1d03ae89e7df7e0d60837e, 0x197ce00872afb70a31bb7957147dfceacc9b7cfa1aa5ffe7e514f3ca268eef6a, 0x13fc4f215596528e45a08d4395df6f8340dc3fc8724e42515de12ef863bfbd71, 0x5358da83d5a6ca9659c8bad87e17a15c55226e0a9c91df5088d6d121183fec36, 0x1057f0a5c7a12c90cabcdc4184549c7cf22aa4b07516efc280f1edddb2e55bb1, 0x5cfdc13f9e01ef920be9313cd3b4d3b7c641f4270879e63f32e0a361344eff23, 0x48089bc4054c6535b78d8aacfa3359e49ac86d2e54ff900685d06ed1c4bc44e5, 0x6fd0a891a287833a8c39e23f039bc7a821c69ddf5e267dd2a384caf234bdf49c, 0xb3c3536024872c0244f02859427c673281007dc770b4b2630628075356475d0, 0x71df525cad3c02dd0b10afe38c3c108f647aaf6234d3ffa2262aee402a2c3510, 0x238cf711c97d13c520b886f1bd94c6ca191a0f2189d4b3148d478bbd4fd78e90, 0x26391455c9d2beaae8cbadf57069d5c4153132b3cf7b5ba7173951b6993120b1, 0x10c79135a72e9e43e266164493700ce3931ecac672c95537d4a73d74b2843aac, 0x866bcd010f55df9500515ad67af6ecc31ce955caa2a89a5ae0a5586b0baaebb, 0x1af38bc22ec9eec79a3007c7e4988bd4423cdc37f668bf65eb59f73f528c9b9a, 0x3b615dfd41a623b283689ef3f722bb5fd7acd790c253f912302aefea5cba0197, 0x4e284086eba9367acfe8c5d3d3d0234e3bfb8ba3afa55b40e427ee65d7d953fa, 0x1ac552501f4968be35cdc329f6398e8d96697bf2f1f55d0892964c43c6207ee2, 0x47bc13a555c61a6ec2ded6dd418f30c362c6902d1c9af53d601ff8c2afd428b, 0x71b3876d9150eecb7ad6e3b99798b0d287dde221790640d5c9be3dd3b03f9ee8, 0x23ed5d69cd0ce2f64ef3f474be22ce02c95f11d2edd0d645a6209ae66e34432d, 0x4b54f57070aa4a7278bf993410602206e25342666e8c9f9ad338929dfdb2cf3f, 0x23b96bd5fd7a9adf573c49394f3a89cbd0ed164248b426da8260d3728caa569a, 0x20c3bd36097bcbde072c465b6afbb965d38e27bc4435bf4eb32e6ea1698ad718, 0x31c5dde87094f0de5a255123b4eced3960e1be9b744679a8dc54fc9a6a7d2fb, 0x4fd72a66ca640ecd4bbd38c49289e4c39a5c18c0e631bdf59b0705526153332a, 0x186fab45f75fee7e446a1661360410dbf2828369925bb6c0638971b820669e7e, 0x3862b631956fdd2fe6259211cc92c3ec9adf5189909344ed96bca460e101d59c, 0x3211b30fcbf8bc229df8f0ff6f6b60697632a5227bccb1cd4158fd32d9ea6a6d, 0x4d9ec291cb36e37c2ed4df8b7b5899d749750cef615fdade0df1fa243d1c6d0a, 0x24c6803913e9266948b4cc991246b98f69da3ce070aeff356695f5de842b970a, 0x3fa300212901c658624f5e394c43dde8d1cc93c58d3feac954d8490f007d7293, 0x5aadc92366071958fcd896265d00a784ff92f27c3971cac293cf4d0eab2872c2, 0x64afd035cf4e274fb05c4260d1f736a9b84d9a1c8681f3532e6783027e9d0954, 0x677b996ab5b61f13204971695e45a04d195a71c89a0dd2157ac4fc575d9608c3, 0x5db1832255611bfbef1855744f4a96ea7ae34e032fa03a31bb68dc9bee23190b, 0x1a05b9fc3659be264429f19211bc6cb69124c44824f397fe2248fd815f5412dc, 0x67ce03e829e49299426c316a6a0ce9527bd1bfa0a4f60e69cb13598f3626af91, 0x117e8c5ce4ec1be63fbf6d86915d54aa25a2fa6bc05a9a6078690cc55e835255, 0x6e1877947b9b053ad5f351d2abc418fddfcc1f3a13dcf850890408a5bb966ef5, 0x687c7a9d0d27f5c42d377031a0c6768d599900ab6a4561593475948ff8d4f585, 0x1bfd22fb3d428b4ece2de6d4fa91c4cb090971ed055ac2e61a48dc9684997139, 0x3188ea5b7c377c861d9dc3947856a32207509f1dfd799319a7b8f5880da1d1fb, 0xedac3ba60d4491ac804fd8146ac27ea0ed7923d1ce64d6e346e4f57d68bb473, 0x1da9020c84b12dbc7210b7d9944229c3d12f9543d2d60217f599e2830a93ea9c, 0x231798f8c83d1d72b32581db2320431b6c161760ef522078d8efced50675b97e, 0x500a490ebbaa47c0f350bde66a6ec7a4f5d1ed10ae5a4ea55f2eb06f4e89383, 0x5994f8a08e3192b418ccaf42d829855f89b1777e1c0475b8e11f21f156472ab9, 0x3052f766747dc34d9ced3f590eb4ac4871222a6b880eacc62e98c9ed79529f71, 0x39a9b82d798e88ec2e7e8235ae068958ffd82ce7570909ab73911b718ba34a8f, 0x5e1ad29fc951779f2a066dea5861537a0d885f7b04d26f4e34b1edafcf0ff5cf, 0x67ff56fc50281bb4f2ff3774cb517f92f453e8c84e5e7c3b6d40e2ee874b217c, 0x430279985296f1c317b271476caf3ca459a24c62134928b122ec4643ca723cab, 0x5c108b27465e5b2c3e766b5d1aa9ab58698e4499beda2d8ba672859ba2c7f648, 0x717124f4bc74695bf3417fddd5db358cc8724949cb9e3b6ca5fd38ab016490ab, 0x4387f49e6c2e7b764864ae0d727288ada83a8b4051ea1d438996bf510e17dbca, 0x517f69db6b5a479e2b87b0973b146463c7afdc2add22867014b71eaf60c4e6d3, 0x40162a46fc6d61cf49c73702e4b00a453052494e30374b4dfd1bc403db8692f6, 0x369661bc9e4e90eacdc44012814503af18676d71822891efce34c51dcbd9c7b5, 0x204b0f01c2371133f9e2e21caa9f107b86b3e5cee3fa5c66c31db6f1749128d0, 0x3007aa29e76b6143427d854a51e90eb66ec9e16f6e35c6054d619042095e19ef, 0x5d6436049bc10fcc0a81e4cb8a9acbbb27cb35d37fd658f60db10866b08addf6, 0x21e8f3cfa68b196cf51cb8f0367b20bf20ce1c28006886f968a93326899df64d, 0x30d90f38c4f5a7edb3c13f68eb5b6b2998e3e7a751fcafe69383d8cd8e91879d, 0x5ca9de51a5365db43c49bd2f8a37830a44afb954b4924167907ba7fe1ae7d895, 0x564914a5ca34a22fb154bd65ad5bcb7d38ab079ec486f4b89779a10783cdde7f, 0x40609c05a9dae1421a421079327483b221c42cc1d6444fcb5ebbe01c090cf87e, 0x1ba4b375a4485bbac6055e13347d1ab51de18d20749501b7ad340a6ae474378d, 0x162da540455013d9c790e10ab0b1ef09356f5a57428979046b51dc3b017d2be, 0x609e42a2317cae8fb2cacea5f2747c47e19ac8b333efb7398d0e4fef087c840, 0x36dbbf6c6fd8467b0c10d3b5a791ac4a975f55def54ed83bd0f700a9dfc1372a, 0xdc12eb46ec1e3ecc4bff0ca2380b5950bdcce10dbd57acfcfabfbf15cbde61d, 0x1d6f4a5e7ca332db952ddeb30977c5bd466b5bbef55bc586f3ab13a23a578b4b, 0x20522646e1a65030bc0a5918469a86b2e9b81d3319f86f863c4862a633f31ca6, 0x1b97af67134c95178232a4887d3e8e4582ad8880974e3d8fdf64c2f9d0b6595, 0x1edebf6345e898070069b14c7c64338572ae4bea79c0084474b2784f79d56cac, 0x5ed10fd49cad1bf5a3ca23074605fe2ef18c7799b1ccf01497177ff00b5a66, 0x61a8aa9dadcf4a8a7d171e963a743796a8c9023d2bfda051f89f722c3d784b68, 0x121d26bf828e8cde645315f4910edde3aae097f1c8e33224398b860cc532b1bd, 0x26bf9d1ea2cfefd823cead303903edf951ac231db7b06fb7353f15aaa9bae125, 0x806531e887cdca842bc599130c661935259c38c8a6aee8bb52f2d782af1bbad, 0x55b60ff37b013dadd30c04b8cecbf74bda2ba576797c0f266c8153e98e4e8405, 0x69cc7d0b28331bf0e543b7a5dd5b3c24f9cae43bf7aa53c97121b5ca64a052f4, 0x5102fb71e530adb391ce6d513a8e1612dfb04573044f6271e447cc9b963aef80, 0xaeef047aa3ff75da6954f9900bf5d947afdee4e1d85d05cf1ef437617910ddd, 0x3fe0703b0eefd7c85b48a8f5cf6efe9f98773218f2abfc43d0e2fa9d5d76700, 0x1869ec6815e13a16be3fe7c686408d650f742edb319b5141fa83bd2408d5953d, 0x69a25dcb80fd679450f19451d774e9abf82445b501e85ef1923eff5f791ae7d2, 0x3486875c056e7e5310e60393d0fa7ad8f011ca3e4fed3226fb89373c9ebb9c3, 0x5cb009dd8d51364fe307744eee7d0d8fe925d4dff6f9365f953a2e7135205f9e, 0x10333c93fea53827267a58184a5f201a4f8092286da51514221a4ccfef399b20, 0x3713c1a479af162e6549075f1ff650f62b8fe2ac3229e7b92806034a3a57efb, 0x21285c9cc7b9dd3ed72e193a3f89f77fad0a12d05475e7c4843bb7d1f163e562, 0x5e4d12803d18ba3ed76285ead64c2008aed1c8cf8c4ab52f1dd3171c6a399b7f, 0x3afe60dc11f83f66ac744215269b5df1eeb47cea11dda78c68074dbdf358136b, 0x2c17af6c4103794542cacf01647f82d244bd2a861147e253a2614dee65a7abfd, 0x13d3a2cca7a18d7a2515618fa5d84848a80f054f4750442359245f6c114b578f, 0x10f641a93da863dfe383a98bd83e85d09ce23d9246dff0eb9729050acd61f82f, 0x2c504e19d3e9e7c40e97318726bcd2bae11c1adf1a98519afbe16f86e7f78183, 0x5db1bde118aec137a0546551702ed69ca1e084e6c85951b2baf76f7d8c0ed5c9, 0x4a3d8e1bc2728d6b6dc41b89a52378bb9c8eb7c2aed7fd536c70b52592492226, 0x61ed6e022d316a18978af9f981e71cbac19b1664ef5e2800d11f6c56c5418f0c, 0x1aaeebacdcb110628966f722062c581e49b77c92412a721546f9f76e3ed971de, 0x3f3cc9db24850bbbd6a210aa5005c7eea4120f1faa8114639317e4b73f8563b, 0x36304ad1e4a43f81b7520b3adc991666d719aef7324f576d8e85e8122f5fba36, 0xdd051f3b5d0fc9f06cfd87eef74411ca2e3915b5f218e20521ce757012d4529, 0x4b4e058514c7baac414bbe5148da20ad9a928e238028d5a5996e5006256a8e23, 0x577dc9d28aba0f90491ecf101f9b761ba73893b9003d3f1fbf3896e3f671d1b9, 0x49d7cc7a3f31953b323ed8243d70ece93f3a9567df90175718355f4bacbf6950, 0x5df2d9dc2d79097ab3fbbd259b456285dad59232311587a3da7768b5d8fa1373, 0x3a9ea538817174c3f796bbdaa93dee6e143a3d96c8eb9fdb4ccc469f3ab0d2a3, 0x413b7262a28135e7ac84a18f6d4a8d195d5da91107fb00f3a54d3633f96c99c5, 0x1958a16d8d1ba3b87dfcc91c5e5191b7da4ee1a0ca18b5094bce3b8a608bc0c3, 0x1d30f64a374ec26065438484eaca946e5333c4c9d4a00d270e6bab1c24fbb4e4, 0x589e4609f2bfcf1fd38b2a636db34ad0ec4023d8a366677e2f19083a10ed989e, 0x27fe2d0528a36b0816b615120bb1b7070ba94a250eb11aaa378947754c1402cc, 0x6d8da2334f6ba168a2e9b48ba71173bcfd5b220427d42625aa7cdb9c509c3413, 0x28d9f1302e3dd9227196acef7415ed3f00bb734da3f8b6f39b07ba90304ddd25, 0x23915a5e993ea218b1f8eb0fa90a251d71b9aa26b9dc326e9ded45f92cd1086f, 0x6cf47cf24e6fec86dd335700538b4f517eedcf6a63e3a299fd1751f31481e2a7, 0xd6bba9fbb88cb54b165971722332875eb43c29cf74d02f2ee87388bb38a90e5, 0x491a719e55c6db4f60a0e594008a9123635520ca7df65e70bdbda0fe9269d96f, 0x4e9483a18ab48bff88b29b22d29832800906fc87fa07cb8224606ae756acfe25, 0x28fa71e1d68d25d4a8109b07f4dd3a05703ebc5efd87d6b062b6a409ac98599f, 0x3e44b0a309e22ece6d82812ec59b8c8d59ccbaaa89770a8581aa5f3361fe36e1, 0x6b9e86fe8bead76ab469606d32d6ea0e91c027c56a89d72eb516fa523a8ec4ba, 0xe2595b8a1dee4a4fa3a9cbeb79da1a03f905789b6a03253216e658439bc9f22, 0x40295ac3ecd785797028e179b8001efd8744739b9b4451f0db4c8c535a67b896, 0x388f34e189281cdd68139ca73b20c7d004de37a9e3cdff9c8ce1990fe34fdb03, 0x2bd08c195e42944a456e218ee3cc9b777404992740d6c3b5127b4ead792ae622, 0x3736527f027fe1a05f6d586531c4e7b49b0ced86cb95799b8f92297784a4d410, 0x6a2251c5810dd514ca0c918c2fc184dd2ab8267aac8382542ae9503198ae91c0, 0x325f97745284e1e362a23c551b3c38d7841c601c535de414411ee79553e74685, 0x3e557a58802c6a31753760f5602b003e93604c8c63eae9f50fba9acd0b339cb6, 0x31bf99e08b4ec221814d33cea621aeb47e5a3c183cd7bfb6547fb73909047087, 0x262d5544b0e87a515cd68c646fad830850f92d3d452a9efd2507a23941de1f8c, 0x682b43c768849ceaca6d4eb9abea6b3a9b174e80390c2cc0bff59003b09f6e0e, 0x498e05780251c4789feb9fa08d7ccfaad2eb4e7b2bef722a4a0f1aaabc7b1555, 0x5566036dd26701143079dd22529aebac860b02c4a5e417a6a3b60a7ed3434442, 0x3ab283cac02c72da2550da7c498f74e2ff039da1bf118f80f2960e35bf182041, 0x64bc85b232f0bd5d8fac35de38a822ecf32ea9987fae24a00fe3b3c52365bc27, 0x69cda06e6a129860125855c0ee8d7a3b47cfebc506a8973b559d897768d26c83, 0x5844da96b7354426ff71ef7ce94e676e06246791bdca44fefb175762e1c8031c, 0x2dfe73302876ec5874069eee4612356e498b08cb512d0ffe3af84f07164218d8, 0x547410a1bafe714bace9fb3b8680da56684b3c5426b99db98c86df1c97379933, 0x57f32602d84fea0eccea6ee914f309a612cd9ab5577624ec7e7620b3dcefc427, 0xdb8bfc45a9ba6a0b96dcdc24963df76685f0403947586a8fbaa87c8627e0589, 0x1eb8953ccf4b7ce83f98c058857baa294f6b9cbf078adeec16f4aa576a06cb59, 0x24f068a16b1024501ee673d29f1d283bd82db5421d3c20cec3ff21b2cf23214f, 0x6ea760457a42c03da0d3371624ce88f41ef0f1f980fa0dc33b988e4878fb2712, 0x20dcd711bc9eb2bef946eac6f93c433fd6f5e81e5fc4636bda57a45f12de950a, 0x5924e06457587b3457b02e6caf215afcbfe49fc455e3a0158fc9121d3a18, 0x442ac5c37ce256f94e6ecb56ee3f7fab4a718b9b6af55ca4375a741de977d802, 0x4322f3e78a9b3defc4597676bed8b452c605584b8b885b0c264e29a79ca46d8b, 0x285b3b16c22d62d1a6b005d9e5b7e4a0274987934d28720be86e457061bf0a0d, 0x2ea15cad52cd7af770f670fc9057b7ba9702b029dda7c4c7636ba3cc7dd63b62, 0x3fecab5b8f60ed00979d3fb0e97bebc925066f6bf110cb3f27cb17decce35c00, 0x31350d5543cd62a7f39cba37dd151eb8db20e171424e90993b8fe2b3481d0ebd, 0x1dda8ba8ac4bc48df10f1e5d012715604005dbfb1b34ae7d40892e999122c8a, 0x64a4bd6f6e19ad285ca165f84200c7add83867c05d69784e7ebe98b6acf12e4e, 0x4a2e6990c9718de78271e213944a3c1751e459ed9cdb72bf9991237d71c1b347, 0x1c81af7aac66e8b80adab70d4eadb206135407fc25ba9f6b6f3001fc77e7ce5b, 0x255b9daaedaa5b4b242881d0fcd423da603aafbe65d40fa1c16e432275880572, 0x6265f92dc637caf57da4f06c7cc47e93c414c607f86c522af564ffc7db911885, 0x6f204093198edf3b47503c7ed17944f997eab37ccfacc3147bb588d982f49a95, 0x196aded7348d13d5c2e7c7b518ea5ddbf774d1f5ff9ee52922fe8f430a74e925, 0x228fe2a8e95571328fda7dd19889e48ef10e4f2608c74e34bc77297c6209ae86, 0x4643f82102b440c893b0038bdbb6bb325bb8fa5fe81ab0190fa1536cc6e91005, 0x20a97d38e98535a6e0f95fc92aa2bac96870b9f707be290c8e88b573a9b03293, 0x4c6bb6f15ad1d9b0afa705f6832d4fbe521600d5e432b1df3f0a880d9f2e4ea4, 0x1dcf36727859d35748280ff9e27f2c301c0e5c5d29a7c0e91ac6afbd5729ae79, 0x6ee9807f70e6014837762f36f5caa41a437e23c9c314a82367b5db4723c7a309, 0x3067c35c7367db8433428632a8bed84c75a2885a04d1a0cd6dd4932ef70276e7, 0x1da80b00642f56b5d640c93a6e3c4b4d0c0a6a0cdd11e510c1022acf881c5638, 0x476d378df466435aea2fb256e1b84e5f344947d633635a009e0872b5332ef4e2, 0xa723a5742ba1aecb5049fd68946309897abc7bbb2dda85cfde4558cdc3e8568, 0x57ce341243f493d2a85e50fad6d89457dce5e820d5b87caf5266a191c8c3f767, 0x5a29e40ef2db7edfa4cd5953afc23125f5f334e12fef612796d4bfb63e57226c, 0x5c8004a5017d740f0094bdd738b461407ac6cb7e9b3aa93c5202ff686c5acae6, 0x1c37b1ea04afd98c4a214e0acfb7622a065ed07b7b5b43c9876c99b3855041d9, 0x3cfaef331717108196467295204ee0764b38a319949291fc5c1adccd5140da76, 0x116df3105e784a43abd859aa065382e6ca06295f3b005b907a96f5159890b624, 0x14e64022361c2e7ccf930d0e84df00e0aee3fa0d556be272592f28ce757903b5, 0x35ac855b80e1646f0ca4db81585e77475fcae7620ebb444efa68f59d60d768c1, 0x6d786aab719b477219ae60f6bb21951b3d512860b2b8a8cf7c10edd66fa5f55d, 0x19563e10fd895f70fc65a7f5fbe1b5fd918a821ad066a7badaa99ff5f51a907d, 0x4ff4a0ebaf0f8890dcd53b8d61fd80e360bd42e76c2260735cbb41db0374df19, 0x7e49a3b265f09a41db2011bf00309490e2500c674eec5d21431ab9c5ba6bc09, 0x258f0345a8bcb091ee14df5abb003417dba8c8bfbb43f4d3ea2efbcac146942d, 0x1ef7afdfdd13e74b18a753b714af3af758681a49bd6f1e73971be80d49f87a8d, 0x1ede4e865dbdfa1d3a0819066c118ab444f9e867310270c88617c9a736fe6443, 0x32461e89752a866c8176fe69f36f753303fa3af8191d432a2629299ca87e93be, 0x725b6c2e2ded74542be37d437c59065e55ed18e971715c334efe28a2c25c84a3, 0x1ef5780429a197072fe418c5b2899470bd3d7f3e5c2a07a692611127c05a14c4, 0x53217b3cbf80c05dd41736335e32cf15551604143817d12e6e576df78bc97e56, 0x2a365079e8ad034c121d279949ce88ec304b800ff46e4feefa2b55e654006356, 0x49621ce2403b3fcf7c85befc99988c4537f2229c14d17541b18c8296cba82dde, 0xca5c58883d98451083c4cbaf88a22bf1fe7d9984e1dad297bc0f89305b7fd56, 0x625e0507596f0a02ec8dd8b633eb8b30490cf0b39ae532768029e9db67a1fc5, 0x6bb8a11e5e24fc68040818231a483cc9bce156e7068072702e0d849995434afd, 0xcc44147250d68d6fbc6f7eaf9cc0920548b79fea379ecba63d5700912ad40a6, 0x547aa4a1e9c6270e9371bcbf8c0b2fb2daa70ce43b91ab8aad2cae7dcbb76994, 0x580a407b28088d0fe83072a089a5a383151e7052237edb16d5f95a24dafa4219, 0x12ee4612e75ea3388a71f61c8ed35476ac6d7bbd71a3a8768c59934178edae5a, 0x3ac1c605d5e8499af650a9ce4be2a3081cdf8aa8bfc7ff8065e1bb3af64c2daf, 0x6939052ae30330bd47c0f3669bc91ae0d3498d242b2fcab39e326eeb4a3bcbd4, 0x617dc43e13e5b4f8c055369df24f95ad611638da54a80bc94ecb2cad9c83dce0, 0x1d153060964ee7312550c02dfde78cbc665a046f79d67c4fc8f88c36661f68ce, 0x439db0b72af0a3aadd89b4875d1d425875e148d11b004af57b5d8f68a63476ec, 0xaa7f4e06290fa3c3e85faed505be1dd9a3045cd72f52b9806cd0561294b13bf, 0x3849d8cc2b5fb580c9a13d0f2dba8c011fcbd5e9d2c573d54b87237640157743, 0x4e5d67e9ce97effb838017816faf75c433214907b571a5d97a4ef5d94a92a459, 0x5dc94d655fec84edd2cae80e01bb70089deee3a0d2fe473ffd53da02e981d8cf, 0x10396010d739d1f74fd2a8581f6aeffd2083aa8098fc388a2f6402afd8e419a1, 0x6702477f5b060fb1f4237a34ba9569b2b996fdffb6df7e5ba7da07d88b7a5fe6, 0xb4a75b71d9d98639ae9b757a27e0eb858fc9eb0227dcc50859c061c2d4455d9, 0xab4dd780d216520d9b96ae61ef3bad8ce5e27cd1f3182ad91460a11e05cf75d, 0xf7112746fe0c3b4d3e3bca3f30c525e7fe53c887c2a151648185a2ef3645c7c, 0x76e587eda4fa046eaa5f125249217e0e45c1e8c6c83d50636e8e1f8bbd759ad, 0x3034aca8e327ccc60a9db2220ad1c69578aaec3a9d3c5bd7dbd483656b24aaaa, 0xca3188358dcc0fba68e214a3957fc643a88f87c2d3f5eaa4b2646f40e1845a2, 0x47f823caadfbae974ff9dab49913a5fc67c0d83e7f4291ddcfaf7764dddbee0e, 0x346fec2a901b27d439bce3fc1e6e46b5e3af00bcfe5893b2681b33eefa969670, 0x4785b794907a5088bd8a4e2cd8e67419458af93fcf62937d63a179e69e9c3ff, 0x161d0cf67ac3ae0ec0c065c3d0b29fb4d38d2e34bf21ff779ab8ac8751c4035c, 0x2d4ae100df3bb001ab1f748eacaf32e43b550973b8efc6097c843a5780b7c8b5, 0x5d1d33d2ccb0585b8db24156585b2d466f8c517d4390f47f1a79b92a716100e2, 0x33ea088382a2182abf1559872d4e90523bccf2264d953e20c1a914a95295a13, 0x3c34e787768989ecbf63b101fa251052af1980957059c4da47b4a2ef20a78a0c, 0xfd309d1a02db1c852de53ccbe6c67bb8faa44f8c042e2b5bc15164df773bfd1, 0x5c3149ac6d528b70ef319cc729d94ed9b09d378741fdc7d2a88197a48ed53b48, 0x6a97715f55f9691db55089a17aca980ab7bb252856edec1a9b2183385d4aabbf, 0x4d3426ddddd92a93ea0830dc35bfe022451672ef160a5ea67e32099e6d32cb45, 0x65bd382af9582431ef328776a2245d18ea6d0ca4ddb2de614dda7c3b0968b687, 0x1b65e179b19930c46372ec4c27815486f79ded0c6489c162d1ed8465460b6f9c, 0x5f69a62a9afb7e8c59b9d73dc1b36aae199865e114a4abed54714ccd6c68e1d0, 0x11d2d43982d5c2fbe2749e01687dbdc89e2742e2409f47b78bdb7e3121b856aa, 0x23e64fe1f8adae2243475f0934b6cf5cd9daec9f881a8264e42511cc36ad4b86, 0xb8c2d2dc1014f4e0f77dc18ea4b8a98f7a06beeb2e11b756981ceb84a0115b7, 0x576301090c28f00da5c40fab6e6d22ddecf5826d041772a702991b8601a5c5ac, 0x9de7db639473f16c3c61b7d44fdb96d18e068b90ea83a8fa77dc03be75a4e46, 0x13f53d78148e63dbedbce54c4579791b7930a19cc886e79c9a8885c9dc27a067, 0x719dd5b0e542ee88648b8ab25c735087b0dede28024d36ab7615b44d72502916, 0x1b841353d2bf037bc943432198d29dfeb67adfad4cb8a6ec6eda2a62ae8f087c, 0x2ddbb3664cec7c49c2258ac0c38e1d98e1535ee814b4a21d0400a4cc30b82d58, 0xd7f05fd357056148bb8ebd395269d99f43a0c5337111c1ccdd1ccf4fe28ecc2, 0x2019d0c270ffc5e2127a49d274d2b098987ffe7750c2cd2a8bf6050d26ce422b, 0x58388c50c4ccc3c1c09ab866b6960415f5b57831402665fba791638d9ccac37a, 0x72db996c66fc982bbb29b33bffa90c36364570dcb6edcfccd00c727d311f7983, 0x6166feb402e38e2c3a8c9ed7caf2f85ad40b85023350901371f937fa94eb423, 0x5b0a1260eefac525b3d9584d42e3414a00e8f7079e7102041cb4c358e5ff48b9, 0x1dea2b987464f13f06d54a2220762113d3a246ffa90e06fd3a2e5c96bfbd9b5b, 0x3ff4da143856213e52b4a4274151e85503b2ca085d46e20e85db9bf1d23656ab, 0x3e3554c2598e6a1b1baae55ec16351f16eaa188db3a97c5fa219637f2ccd3eba, 0x4a55cf1a5021fbadc3aee32df36113aa323f7359cd90b13e735c2d98f36c7e15, 0x30f1aebd5228406f633b387abdbf9410aaa3a43b726ddf1276abe16cc3afabb, 0x40726750b4dcacae3d202ce8ca2b36e6e1376ebc92bee9c639b7ade648c80603, 0x3f44169e09b997976dfee208199eb53f74c2c07ec3b5f6231d347a9bf8d1384f, 0x661f59f902dbbc1869594379a59e31ee2b1633f5eea1fcccccb09e4a83096c82],
    M = [0x2afb03f1f7a6085f9bf017982ed578fe6185c0355d4affd686b77f84f582f3c3, 0x60d15f34ddd9b5e7096a9011806cf088700a5818dede2a3ef24598151ae05112, 0x6f685b2d6d9d80ee4566eee954cad8fd0372bea12f99decf8efdfdd33de06fd6, 0x178e46dfed37e9db911121730467385d9eaa59a9a6e6d810e08a66dbf9a5bda7, 0x3b5c4cdf5ecc567bbd75dee3f90df27086f363e6d4492a220ae05ab1533449da, 0x45786bb9e9678a82548588c3eac79918cbf8dd919f92cdef053939515265f221, 0x2af2f950314bd15f8055aba2e7538eafa482dca9c39b8c45fbc94bddbb4e0481, 0x686908bde04ff63d2b5a747029a15a5d937442157b8a69d368849a8814de234e, 0x7306f39e7560a1b41586e810bd8d6b453b1e0cbfcf96440584ef3cf8552e9f3b, 0x632c27ac75d7bb0833e6b1ef85a6bbd9d12eb9c6427de525c0e2e1fcce5e5fcb, 0x3e3842db482bc8b5498a42222e3992825c59009bfd1ec7aff0359d93ea2cc125, 0x40c8287f911c01524c0f34a134d2b39fa2db4ab2a28e9e4de2f9beb24c740c36, 0x721ebf66794ef8e4d1a223fd17c2d1e51b421da8656d02c17f4ff1725c40a863, 0x23c712b1be9e7a910b082db67852fd6a2966182b137252283a9980f433cff7cd, 0x17848db97f02a2b379067735fa48515c522eaaa978a2840e7b5edef7b49c6acd, 0x1cd21f623253e581b64582ca2b253af2e9ab551226b58399d4e93afb6a293767, 0x1bf56af7c3128048f10d0c36b066def247822db090d2f7798d885de56993b0b5, 0x614e3f1b9f17f7436fc753ac4e14cdc1e24cb46e84afaf7b206fd5124b40d484, 0x37cea207ecc869a08b65a1bfc9df33803fe277f3746500e4973920805b9ebf4, 0x1e8ae4c342f9444be8083f6d22a467de4d384cb80099f8ec71c992d35530eeef, 0x52c60a21ef7e11bafeaf0d81f41d5c0989b6034e7271631c2f7020c50a073cd3, 0x1017e54797b9346c756ca1e7aa583823899384c4a74b351f7de64310a33a53c8, 0x9805956cfa5f98057196bebc413b30cede7f39b700bb15b296825c4b649c20c, 0x2fef044e5128e46ace0fa2a57b66fe7af2f8f38368a17a1d7cc936c822239a6d, 0x15e7b73b391a8546ec0529d9f3da70fb16aea02b47836ba7e90c1234c11f8a25, 0x62975633ca1098d4876f5585a141dff1756d45f97b3d7c50b6773038b5dfea16, 0x6d53f1b6b002418f15f5251aea6e95dd40edbdcdb8fdb5736df0fc4111a74b45, 0x706976110f736e019a815c1e26933aa640035c14c94bbb8bcfa88ed5b31ca504, 0x255fc78eead7999321fc86249f5b89ab521fbf777239ad3878133ee976701e6a, 0x33408cbe984cb58850d84ca42af923a10fcb8a71c47d31cb538a032aea1c3d3b, 0x6885ad423b042c663bbe68d9dfc7fbf2049c810d12ee23d27c9e37b92e065bfb, 0x5f1bb571d295debebca54ad371e3c36af9d1d08630460e85234d9269a5107ca9, 0x49dd912276fe9cb8504b1bbb45307816245cd2a21a45e51123ebd7c93e05ae03, 0x1515f074ac29ca7053d685e3c16479f06b6bddab754b0d542a936686b223a7ce, 0x541ffcf9f35d3633708a3e6589f55aa7e5308c9158ce20136d0b374546d38deb, 0x6c77fa1a9b396465089b15eb2b673e33086c06cb535fa06500e23d93b5bcd47, 0x1077680abb5fa1d1dd204380394f9c01563f5c81f0cb998937f1c0e2cd647df2, 0x6310db74dcc31d3aa1d5b1e4b7016f3f0cde3689c44ad2f644afbb0523d48833, 0x327ccfae9c87d8e762788e761b87c1fa4c269e9982021328215e6a3b4bd10221, 0x543d392448ebb048f6f0a6049d216ade72834247bcfc42c9b99525be1b0f488d, 0x1ce4c289dca66bbd928b5df988b2d9af3d453b2897e293bff3656d668d1b9dd, 0x46405b41d7e4e9d6e80566908142901755fb9b5f4322cae56d3f71733bb9c664, 0x69e9138d3b9c4d6cbc82fd358b2583257d2a0f475e93856067eabbd7ca2d5edf, 0x24d357d901344b63266e5c6d94e59aecec82bc1608f76b94501f43fec73b5b97, 0x664bcebb01968005f44c2d7543e1209fbdcc65c2b7f642f277527f89408ba63f, 0x3959f4a6765fa671253ad31e606118ebcf58350cf024cc4ffb72f761ba776175, 0x106e8148a265ffbb5643b623501a5d9e8597dfcf2ade349d5ffcece5a8919dbe, 0x4a1ad499744b8130356fe4063a9c9407454aa0d6df6753812af16759f7b00568, 0x6c5b20b87590b63cb4382da13799661fab6914fb33f76d9f654181d6373feab4, 0x53bc0b339adaf08c9fdf065c9b294bf7609953aea5cf47f99a0baeaa50ab398e, 0x99cb15f610df183934f442ad1de1f3ecaae60099615955cfc244f33f42fde87, 0x46cf384ca0d154bea72f6bac8e1a4f895a01169451f133a7bd77944c3c1d1d26, 0x4ca1b2e18215513a63e37d0c1bae25872517c06bfa78694c0f096d8ffead706d, 0xcc9f4d7670fe703919247446786d809bc1f9a495ce610bbda929f7a5d532912, 0x1f3163668780d8883244388012f26a1c1ae68e57544380c82525f3fb52b7e73, 0x12adb2f91759d4d1690df53b1bb657d614f17b0bbbe821eb21163e88bc9d70ce, 0xef5804d433e96398c727b49d94c9236d29d4e8d6e36dc20feea161d53453ae4, 0x3cebe86105a73c6c44a7471cb298c0b8ca249721b55a106e8c9f23319794a1c, 0x247b762386668a83e22a11ebf9163b157f79bb48cf2a6a90dec781c9bbf97206, 0x428eb2c27e4046bcb34854890fa8f18df916733c8536a370fa6da63d1c398aa6, 0xba0803967fedb91dd1bc2ff0fdf6f77ca940a492b3a928c80c9f790e9beb353, 0x6c1b4cb468072821c270792c896aa4f205367b60247705c0ae0a1f1c075ca5aa, 0x6eb7acaef4d6f8e4c68f3f236e3c79b092678057d960060510676d1232e9b43e, 0x650d4e58e49838a2e206343777cbbc95899b4583b34c93fdf7240628e3331f5a, 0x1fb27869a35db047e2cea0397b22abab3a6bd6c581acf4428887ae71fb1e8a2a, 0x53c6aafa40a3de2ba886e96fe6eb9bfabb7e908139827d7c6c6e17cfe4d6f910, 0x6c33f1472a478a457d3854847ccf872d42be616da526e5137511a95ea3ddae38, 0x1327b755575e84bcffb67cf3b08ab43b716f3fa18e46451de4ac73c1a1515313, 0x23e7678a289a78bfe142ad1056d72ebe8bd58894fd927d54883b3a611199c15d, 0x35c0a80267adb3e5745ba96ee5d0d9487225d4c5cd23d83c10599f65aea5e358, 0x230e030e58469c2978b67a3dac21487ee561623a94522ff85f63794bafd397ef, 0x739c08798bd7add97a1628bcf4328587d5bedcdc77c4b80eb8ca12336f1d6cc2, 0x51293514842b5b92433c960e3625ddb918f9a21411a6195d627cac4b675c034, 0x23a5858e0f7dbd4ff8482b44f0c5cf4909e5919e28fc72e82b14d81c7f57809d, 0xedb8e95f0eef5e7732e54e4054f42a3a2a8fcc6df6f550d94d651c2caf52dca, 0x28f7f8422f97706b544c0a2dfa57f7e93506a242af0d7c689f55cd64ff7cb0fe, 0x2f93d26661622831281046a2bf7849d0f0dbdf0961eecfed609804ab7d885305, 0x3c51a4f0ce22c76dd75a43e052f265855221e5689e1b978a53c51affbd3fd64e, 0x18eec49c2e1cb72754c39a37b939e9fe7061b722f3d24e81a11240c84578eb16, 0x6e668c7e7d4e629b51ba6898a677df857a6312547779673218bc1df48d586bda, 0x1ac49db798379285523e7d81bdd8913afd253bb6919eef509f160da0078cb784, 0x6f4d0ec438767ec99133962477281dbaafc437664cb8420be9f195c6a2420a65, 0xac9fc565c9cabb8bc033117e89f2fd22c3a790343ea8336b4da6a3749d23c49, 0x331cc72de59d28eca47d54e090ef5db2bd999ceae258ea6f05ea9edd8e651d3b, 0x1eaf189e4731ba457bc442f94c4d0f53132cc4c4394d36e30b628611552128b4, 0x5668dbfcc479b3f69895a6f007d3b004818d8433c4ac473f83bf2b8327a40db1, 0x5245c8739a5faaf4022d5635fb4fe8b349bcc187e46f38126ac64e12ec0e26ba, 0x56680d794fa32fc9e2c8cc434027cb78699a2e82217f88321f780ef87c037d3b, 0x474b1891acf4850892da38ecbce72d90513af682d9f2b77af5b6bda120760094, 0x62725d3e7713cf1e27a2ffcb859972101be3537f4d2fd68f504f73583d95999a, 0x407a3ff86c0a597d053fffa15aae89adefd3c150837a0fcfe000b143940f09c1, 0x23f07009983f2908fc7b1ed309d3a522e0b3ea35c803baf00178fe596da10c9d, 0x6b325686bd7d39dc31ec32153b36b49f3bfd5a58b6503d611fb1b3a7731d6db2, 0x49c41a061552638b5421545aca789c7b0b60181f64c9a923aa629b4bcda32ca3, 0x63cc5508fcfea30a0530058913657020357d6e5db5219bf83a8dff613ff69091, 0x3d9fe7c15698f5221d7a057d84d4fb9783483ac9f4b074cf6b661e3e7ee33283, 0xc8b541959fbc6d53a331a8d4b6014664100efaa3a9cfd6ebbafb4e949afa691, 0x4b953de32c78decac956b3b823fd75cb905cdea23f561a24170f19137a6e79f1, 0x6b4b7459f073226e3e2555f9ee3a08f707a4e0d73650c47c7bfd31fa6e3bff0e, 0x6e61eef107f6ed4e7ffccd908525e6152cd4b6d6867e294007c42f56ecedf559, 0x495760867c26d1e98ae41310c566eacfe3a28adabbfc3772d3c9027b0bb69065, 0x1015d938edfc4b687e51719b2e9ac21ac3e9307d03c791c014af3f48fe96ba07, 0x120eb1aa4927896a549afaeed1eb67c1cb80512b662b80eed8ca2caf41a740ab, 0x44b773fa1b8aec9aafa1fe6677a48e5c05abbc30657e14568cd1f11ef1f27b00, 0x38a194820937841b6d4f4ed5dcc807676aaf3662cb8f6b25336447806114731c, 0x6f1e37f2f8c67e7eb835004f4e4c3eee6d885723c50a7adae105ab5521e7e59a, 0x53e22acc4f8422aa061cbf2af857b87e216b3a4b7b9f30f9de63af9bfe86edc2, 0x14c0a5638057caeef87f60f4794389dfe69288ae1e72392df9df49b773d59a1b, 0x674d650a52eed7648e00cd5e4b6c7b38f1fa33375dba7527f7cbd721367feab7, 0x11a87f3c36233f6212903e2a20a2559a820d01bb0e871363353989f95fdae25e, 0x68e39a5a20f9a3da77f49207b98fce5651357ce3de85736cb4d4d6dc37b68000, 0x50a5f19b9903219279a8b7a6951e43d3918cc2f764c4cce4eda3e1a24b31fd05, 0x470aa77f7b4f376ed95ef834ca61856de1aa98e15bc2eafb52232339a28908a0, 0x73a250fd1436f78f6f673d33438f01ba206bcd6d88306f88b24be90e0d87f8a0, 0x177e1009d6b56f0075332301f2d630cfefc1587f30a0c1bbadc9b88f72595237, 0xa7817e30ece0fac06f75798860591cfd3798f2276fc4331493ecda66a2c3d85, 0x40eb724110c277d513ae197615cff10f882f5a608db9efab03a61c22151ebc34, 0x64597a216a1505ba3157b595f4004724fba02c5328b240eb9d1821dbabbd5775, 0x72cf91519d83c9fdaa3d338b7ee4fce5a527b8e07a163b40b9dbd2abd0375020, 0xd4554285682626dba9970d3c28ff6a1208e35636a539b8e5ad988202730e038, 0x2089e3f7edd85edb2cc1740a1e612e8955edf0345857a3c98559e5e43b9f1438, 0xe92afd082a0b53dc42afc2c6f00d55a4487a6a91acacfb54acfc675921b5975, 0x5a4044c3fe5ce16f8cf9b983fe4d0a0a1b7292910b5e35e46a032fc28acfd964, 0x2e0976cf3589782b166ad1ba454e1e6c537318a4d31dc55e347f5fec5ec362d4, 0x46c22de8a169bda1236ff1714b4b5eda537e71b3521a18e09cb2632624afffed, 0x331aff0925cdc45d5f978b39c85b4471de26093667d5170386a3597638eae538, 0x6dcff5fff96636ffe0d283db5d3d978f9b9210259e0b1cb68da8af2ff1a2f0f4, 0x20f2f86bfd50ac515b36c039364c084253c4abb35dc40a26fce5602ce9d46e5a, 0x25a6df14a575e061808aa02963f006c26526d7d2a443960669cb0f2c456ce367, 0x6bbd71c34cfcd23df714d248e42e80373ec10a1f8acda871b4f0125af00eb79e, 0x3126179e7046b7caff153eb5ffa422574b8a665db86cf93e060a198af00ef24d, 0x22d9311b3b1d4d6290f393a833018c1788bdaba797625e86d009fe77fb0db240, 0x5144562c1f2f48cb9cbab3127b111012fa83586bbc98123b3fed83911ebb63f1, 0x6aaf6146335f1715660e6bba261f2532fb180621f88d47d4793cb9117d649a28, 0x514e60378dcb114c2c42c34f88491bf5249dc1053ce05631864b67d994d1bc2c, 0x3a9cd7a0dc41d732a3a7259659362def510c302cb547156cd36f4f2eb487b3b1, 0x51bad83b5ba1bd2701e9658deb852ca8138e05aeaecf4700e70c6680f2991262, 0x3beb7f4cd4a96d4eb8f60b358db406902865599ff2a818ec607246c6f5813904, 0x53dfa91a5b0e4a40e52992b54f9ac429709c79a4f9ff5a64eaa33d50dfc5291b, 0x1dbde01032b1f13c80f12afbcd1680c7e627de6afe480a025d6e1f6ce6f9a927, 0xf53aa3ffc75e29aeb7823c7623cba9107cf908e5b0968cf969b3d54483dffa9, 0x51a8c320161e32a9d33bed81155dd6480c2b883fce119463860a998eb3050595, 0x443b9436b85ad1a2811e6c8906b21d759979447eb50aa3250ccee0ff56c31515, 0x4e0b666d61e19706de7fba27346c9e809926ecfc31f70781fe428b161d569dce, 0x63cba203043d075470633047b9d932ea052efd2dfb2f3f4ab43d4eb362cd7b27, 0x20b36d3a055ef35cc421d99e590b75b1a697ecda702a07f8b75d363b3a5662c8, 0x31ea10b470c4cbda3f73ad90c6d3ad6ad3f9a670b5b83de3158c7145b942b68d, 0x546b7eb74dee52a79b3d524596d8adee2816b1ce2c0ab9b353f924d942c8fce7, 0x657d3c8cce9a3ada7a9fdb5f3d2a7e5667af486e7cb4101cdfc5cb35b00803ff, 0x215e1df26c74c1ea6cdfafdb74a6a98d23947cb23e461ae48eb03d24e05dd2eb, 0xcd952e68d81c3a6ab1e86ecc9fb0c2bc14b9df82f00b34121ff01a37533ba35, 0x23179bf13b4cd9360e641ee59452af1b2dfd5d7a6a09466edb1324b6cf7eb8ed, 0x2fd601badca5e12626f318b66a4abea76ceb714334ef4bb1bb348da80ca4a12f, 0x5cf8184b750cf1e81c26745dacfab788a55f1c580656650b58fee5747ae9f126, 0x2150a463f82b1f595c1f0b27d23501eb248c109a0e7c1d5b17df26a439f37fd8, 0x5dc0c99e4db5ce1ee0474a2f226c43eeff0208507d22ff1fc9f2b07f14d2a447, 0x33b7fc8c432853f55498b485608cce38525650de3c59e2635effafa966fcbe06, 0x6e8cce3e78a18bd774911ece0f54ad882d52859fd40a3fd8c91c893aab278420, 0x44c63a45ae5cc359e9673bb7ac408b43a7fff1fc0ef9ceb41fa6972cd5f2712b, 0x619edd04595ca35b1c10c6304a2f75fe31da408a4c0487e085f7c2731fbbc71, 0x5bfe3d1294eca300dc88ee227aefd0d2cca52ef8936f62c59675bd31f1620fe0, 0x3c061fce7d834151350fe8d04d86289265aa8688358d32bd734d9cbbd88cfc3f, 0x192ca83dc1d7a3899dae7d874741a3846a83bbfc5c53c5d296912fb8337e6d21, 0x12f16888c03999b0f4ab652d09849293a5c54e0b70a9374a7d61277d3a7af6e7, 0x4b6a712c68cb8ae45e93f21b908443fbce39da510a472612475eafbfe335fed3, 0x225dadfcf1e73a4d72f5fde1ab59fb1d2d67b15b4b876486d18c14b726af561f, 0x22cf48601da4192d70a915343606b4b00717b96112bc10c9723982acef4db6ad, 0x4c7df97965e460689bcc420dd76529b578832e6c883df1dc7aae7ca3dbeb71e, 0x614ec95ea531b4b68436418c0d0fae733478a5fda687e88417f2b54fffef8605, 0x30b236df7d25fd23491eaee86b8139d2f60774aad746ae9711e3a9a1f00570ff, 0x12e4885ea5285349e1ed96206944ee13648e9cd39583cc720968cad9cd344201, 0x5ccfd6b47c048c133fe49240f76145964f5bf600a1e3840bf53c119ec050a236, 0x68ec0d3737fc582cb11eb860ff6512130c1cc5cac0ad5687bea6acc5be29ef41, 0x1704e23186adefb64ae04ac9f07f17601f73b6c9a6fbdd91833f26989e13c114, 0x4411e0dd6fb36707800efff0751ad8fb5750c449fbd281e0fd9c953306eecd4c, 0x6202b3496c60abb87925201eae9970fb301fbba1dccaa9e6d74b7b5f8b71fede, 0x6e392b6ebca516f7aec19ade6d559837d827cfc7a2d239eee75f488875215236, 0x3345c72ec1a4ba98a633714e5de9d610a13986461604f91ff1bf8d16c2ad1b51, 0x320a5e22994787ef90e5a75a762b18aa9bdb5cfcd7a8771ae65177b47a9b725c, 0x36834b3ca78856a7710ab59ceebbf85018e2ed3c1f76a9041761f95e7a9afb77, 0x5983ee2b983f816078cb21af68b6a33c6fdaf7be12f6542fe6d72a53d5667343, 0x5015e9a218fcb7f73de980904471877d8bb1f371bce27529d9a45216b144af56, 0x36d5c37b73b6c08b596b016eb74645c22aa994d32f374c0bc33ce9cb454edb19, 0x809e0cff28468b4baf5573b1643c836b49ff4612aa4cdc37968a8990ef3e59, 0x379765ffe9f507fdf1e940e6cec25bcaabdab1e05dac2293046d6de12b700cca, 0x13ac03e2d7276ac365420f893e75a353a6c93ecea581351116029204877ca333, 0x72dfc82be47c670696bd5f2c15190b5df28c03e22ad13221ec7269f6c8839d33, 0x554ac8ecb3493a728f8f47e0f5259a99aa380d30d401c91f585834fd3954d564, 0x50d7691ffdc7f25e60d2d0ac232292893e9ee9b2c07d43f923ba6f636a6208e4, 0x22a12f802dae2d273174a5fc6e269792277260fa34e7d2eaaadd20ce776d7721, 0x137ae6670e9f452941276fb69ef9ccd3c69736fc5fde1397b615c7c0ca0e1d25, 0x4db182d57b0eba91a38a449942944431814c6fd3fb455a6037b7374c010db03a, 0x2bf5a79a1d49f8e4820c90222ea99963ec83629cfc6c5bbd43d50f8f38984e24, 0x213bd408d64a7b99632e64a25ca5e397f8c6b1493d5e4ebe58a8adf8a45bba1c, 0x18a779d073cedca85a60fde65143b58f5789528e911da34c25d8925580cc7a2b, 0x54db45e726540fe4c46125e8f5eb5655aa114a6bea4bb7d9824024c11ed317af, 0x201bd07298ca806a868884e57cb07e746ce6616ccf823502f04b9072aa101806, 0x5d111f2ed8e6ddea68d05c05e05c71080a86c757468c72db0b2db78f61db779f, 0x45cc0b8d2f6c02bce5a8ed29b416558aba810e574ea2b03ce4f91eafe45b8f05, 0x223c2672ea9c785ca9c0a962e346563479b02c2ad3f0c86e0375a78d86fa93b7, 0x35cb39c6d6c3da836983a4d53358506a8bd6e9a459e70b8b9253cbff55270673, 0x317b123eb575d21e9ec758e5a14e803e049d416848b4d06a137d8b0050a79254, 0x19d02f667dc338d8abd0239583dec7d051ff672bb4089b4e8f3013146dd2b68d, 0x2ca332773c8bc7b64768eead3e3deb33b6931fdcffc3b982b1a4cbc479f3afc, 0x4938f339454dfb775d059685a6f3d9d3ae3ce658f31e70a29e1bac33f22cc9da, 0x6bffb4cd7a03d1348e99bec1a872159404201d49ad950e089648c4f48ca8f133, 0x69ed6a3a0c100b439ec21ee765bae967e4f7737456d9277b93e3286ac96a9936, 0x6bd70196dec1f173f298076a34eeefc7ef97e31e707d5a577ab8ed2d02d1256, 0x3124209ca0119288905478f4ecca5c8b6b9a748e58988978926a96af740d2765, 0x5aaa9dd704322629b91f0a48a774590b888cc897dd913927bdee9a8e44fb9b2c, 0x6c713afba8edd40d5a5bf7e249ffa68069bf3521b12e177992a60f22520d464c, 0x26bb94b2193753175cd1b84e8729dcab68d811c4a9f214cbda38b54465c1608e, 0x3e3475bcc22da5126e6186e6bd1900da2b146f612432d50c9b18a8018eccf778, 0x4762fa1b950bf27c87bd8d34da7befdec4301140eef0624866f0efe74187e7dc, 0x4a072adbfe66a48791c9355f996894465613d89031486a5d5c64e51184349d42, 0x23805aa1404074d29b29dcb7dd6123aad544e742facf078640540c63bd833ce9, 0x40b88ed254787fe7a14200eb98a311668510cab15f6a0bdea011bfa67525b232, 0x1d8787ce1ab6af1b042fa325d242e6902280dd0a80ef0bd6e2b4d16f2e043488, 0x3296fe4ea8c9caf5cef264893ef2881cfbe2bd210334728baf15eb747f62ac02, 0x1797a5f958137400fb51b2a65b7efa7b026d2d08a72d12f0509d0e76d497e923, 0x1d26abf96809a47220cd9dfe728a615469d22865af2877bf78645183f6477c1e, 0x2f6feb4d8f0cb72c1bb76d34ed8bab870697f1ce8a063f17cf81bb9c26104864, 0x5ae40106aab9e8a6aa6343d0b9e455b372b563fe76b0adeed2253e7f31b9b2f7, 0xccbd09071b46300126b8cc993a85767b4194bf6ecdad2af2c492353fb97a7df, 0x509407dfe320e3c1e89e5a70022cb7a22da0c5ab2d7e6199783412f5d497f21, 0x4e07cd11128758a0192a11fa7116226fd4966f8bddc10b9bd63b1caf64ef0a4a, 0x44796c7d4ba3aa16c2af6dad8a5733df9847aab43c38d190206ca2282e3bf68a, 0x8be91ac2b4605e180401a6c020f713fa3018419438a3150a603a7bfcce43e75, 0x25e85434251032305ffc354b157b540c1233aa7a9a6b7f3f7d7161120c4d6246, 0x37aa6dbbe8eff742e6e977395a192eb4726b52ef4cf92fc91d1aa44c505f1f34, 0x4f3ffa0a7f4eab5f50f84dd6f5959da97a43fd9966dde7a6edf26813a68ec3c4, 0x70aff4ed368db7e773affdfd47e1b7c5386455236610dd72f06366563d135efa, 0xd9502b30593f22091485504f692a09a7825d07bafefcadf871e8665a5c9eacc, 0x594da7e5b2561de0ba45f6715f693a0248614de95abe19a726b2c212fdac1954, 0x2ccf1511da9c5073e03b7051649b81c09a7f9620c846e041e4ce8c00f320f79e, 0x3432b52a12d9d02b6af892e775f715072b67d5d76197ab6b1a73ef1497a32747, 0x6e186cf85a1ed966c0eb4f1b4b5855938223d58834f877ac3eee652b267f3b6f, 0x7cd6f037157b23e18dcc56e88b295ff673f759d13701f6b3cd0d73769895273, 0x2a245ac9e911d1b14d78b0684cf1f5a4e7f66ab5ca14a05170a9128aa7f63029, 0x3582e461fd74093ce2602449ae00b8952c82656f153f2017c84a1dfc73b2cbfe, 0x662b146239086ce7c940fde5528fd6734d6eba6e1609d96cf63c6f3f75892179, 0x4422fb453ce7a5030280b58bc8c6404d26ae3f1aba54c94a46e7c8d91c2fce95, 0x1e2e04160f5c05af14c6ac0448dde5e9532f28485b08edb7f09aada1a63e451c, 0x51deb2ae95876c364b80c6c2699f95d74742232995939ebce66c74275c6f6505, 0x592042b15383c45fdbeda327d49f5863054e29d1ba90b4f0592d74dfb8140da, 0x3839af2e1d8285df519dff06c1fb267a0f1b82c1dae8c853041fd22d36267615, 0x1ddb22f8f7e70768e5a1b8c9ad062b4f9fa8283a7a4a25cdae2427b4040dbb90, 0x180531b9a7c6aacc57eead113bc7cd14915651a54bfeaf63d779670f683df094, 0x2eb20c6cc0fb4ad11044faf9beda550ba6a6f4b9ae979103561c424ac107122f, 0x49b8f8480720355dda6dfab502e8a2842579d862bd3d8dbd5bbe9be0848892d3, 0x32ef16a222c03954ca144c7be2d754d033e2a618448910931dc66aa89218dd8e, 0x2ab8e9977268607136d8c1f64dd6b5ccbcf936941cdef0830c2bbc605d8857ac, 0x723c1b289a721198f84e0a2c6fe1200f87884c10be147323be12303b97e12711, 0x668d22b16111be48ce53e3602a868db415b6f1d3eca5bccc6592a24ab484caf5, 0x430727c56cf1224be85a70fe6c825970deaa1fe7222bd35c6c6479deb030c42d, 0x387255554c85aaeb0c75061e935c03b17db54fa4f4ce968d504a93441387ebae, 0x417a47418617e698860121d354a73cc2aa2127917d1108ce29ea9e2e85da1200, 0x1ec02dad69b43ed51a03b705ebdadce460281180157910068e85014ccba2bcc0, 0x6de20f01b88c8075bdbf9737b3337928bc77c69b6df5dfb3056b2a5b36138107, 0x50c9497968034a2af69944a18cdff0664728e9238b54da0fcce6fd617b5096d2, 0x460f5ad9e6d4f9faa3496ff90d921125d2f54f46d31302053d882a062f33e95e, 0x3a1fdeda2fbd49623f2d2c8d1db9148f10d5728f7cc50160fe0146edc27a75ab, 0x6aefc60ba407b0c45502e2c41070c4630920f097fe1c4ca0b55b1f0d1a165e9e, 0x230b4468713a8ccce09447ce8eef37de4caaedfb1d700d4df5e708dd484adf6b, 0x656a27a6ea2100f22c75dd0d4c5bf8a5137e743acc88fe0bd764c844fdd210b7, 0x5f39162b17afa0fd68048a05dc26111a4a1320f8ce727c469834645b5c06eb28, 0x331d28c70366ea59a6c0ba767549ebcb44053a6b2489cb780dcb81d6732e109b, 0x675920c1096c5d3d247751abe467ac9f59131010ba36fac6723a8f82b84cbf47, 0x86a4d37c3ee2e94d047fb413aee060292becb8eef1999a336324eafff898f10, 0x29c8cd1ba014834f2a30b9372c5f360ecc804adadc60fb199e73724b8a02cfe4, 0x3cf3f1cd4f8953d738730f0c7f4c74cec213699be3136b8a724fde3e17961412, 0x2513bf1152cf1e17ed4480ab3182e1a80568d621f83e5a977d23509c06bebb6a, 0x733ab19688af005cc753b48856becac77888d91a34103d7783fcf99127a152cb, 0x2cc4e34181fe1eb01c298d120b53783d1d8fc2f44249fba9a4a56fa48ba47d9c, 0x1fed504e4b94afa9a7a5a2fa39bda6f8ef9eb6b7d500021d01a1f3f5da1e49ec, 0x4c9f3b0b119a94822d548e0676bb9657c012b7e099399464101d5260bf090f36, 0x72cfe6ffe8d9ab2ac97a9d159d5abd0a1c2b2934a3c3f46945652ff098e59762, 0x4c33fce05a965282ac90ae84878fefd721c406e6b48b9626c22c3e3ee63b4b01, 0xd7377121c76c1bb63307e117e46ba9d8548f3ee284bb150fb9f0a580dd242d3, 0x3b74e5a80f5178387046aec615e2b413fe9ca4de26f55b9b24f9279ba86b26da, 0x2eca93bcf03307f9c6d20905fc4310ba3c7c95ca729bc3a2ae2383e0645c77a, 0x5ba7a2b7e506448b6b249e9e2a98262f60b1c18d56246764df2fcdd930244d2f, 0xf438e5dd07534cc3ac873c7758c137bebc917c18ab2a6fc629594672912a2c6, 0x507379c77f8a7442a987311b12cfb5f2161257bbadabe773477a06444d899e99, 0x950217764f28d0989853032ed69cce19901ab3fd2b066668a411a35c4742662, 0x32dcf036d33bf66bc67ec204e12912476b478a60d2496b732c09400c87132dd1, 0x492e89c1540c85d7b51a440cc54c00ec64300a75315076cd92d47a9f3ffe1e66, 0xf9d9e192b1610940644a4e76bc99de2ead8541411c594716504fefaabc9f0da, 0x2ecec285dff0f63870f755fcca262da5ebb230ae14bac93dbbd9208f8163ddb4]).* from "../poseidon"
}
