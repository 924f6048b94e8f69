// generated by tools/gen_poseidon.py
module neptune_t10 {
  import poseidon(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513, T = 10, RP = 57, IDX = 1,
    C = [0x33dfe3342ce5860171345561b3eaf399ca5796521a73ccf610ab425f48ec1956, 0x3e5c8083980790aea5ece9a26244088ef59a2b633e09aba527277eea8378f1a5, 0x28cf4e1cf9e608a5f621ccb1fd99eacee1d0b0f090bf8a354ac44bac6c05d46f, 0x182bf48d522036b33835bdbb946ebb5e8cea047278e62b4a2cd35ca1ec8800f8, 0x53c053f269ff61fc160d32e679079994e2e2feaad18a830675cbf53d298ae345, 0x4edbca5c9fbce411a850f67f785c7ba05836815d0a2b273e745262dc6ec9897, 0x39780ca85b03cf0a4cdf130abcca0bee1a2f2edcb80d8b5d07d09c52f668b7c3, 0x47aaa674f1fdb3d69fa7841f03acc5a41df145ce0fe49c117769a5332b33e182, 0x34e51c16d449f4a553794cedfd13e4a4350ff8636eb74538f83ca5fb459d629b, 0x558440e6e99ee85f390808f48ade2be78df6a1d0d9fe5a75235465a2255fd713, 0x753812426f6381f0cae6c6a7ab02e1dbbf761090c419ea19bd0bab74e732c1e, 0x2ef7c425ed713f68f85589f547ddb347e67f688907b4597fba6b29393c48f6b7, 0x1abbafaab325013c9ed0fe257543cea0d53c73e0b5b0883ecc649c3e0b0c0ff6, 0x6485b689095ec70ae73911272d6acdfd964282975e48ae138bcc4b850c31e8f9, 0x51d0a9a2e232ff848de5b996ab5f0cabceb257a1bd0c9f7e0e0a156460c5b1e8, 0x7088eb786ab361716375fb1be63ad9153256e5eaffb03dc1c919dc9d338975d6, 0xd827ab665250637ac69771965433a9dc94fddc54608aafc6f3caf2ae323340d, 0x62d351e4026116ff066227c595c5f48b0efd0f0ec2b06403034d5485a15335d7, 0x63e4c5424a27e20824211db97f8cc9d8cfbb4506f4181f75c0298db5256b4d74, 0x61c0392f3d5cd64a9e825f042d39eeaf22a1239210bec6b1ce2fe5729414b460, 0x28d78edfa1227a285c388cbf2af52ea3395258f9de392f676d6ff4cb0a92ae84, 0x1ad4529028950cac710a7089de152cc72191539add814bad2b63940f6627fb96, 0x35f024617543183ccb2361cfb2ac3e2a3bfc96a9342e2702170e4cd3ea0edcd, 0x1be027eda6e4f19853c93fc12ca0cdda5826ca42d01a1675c79c48c660a1ab8b, 0x16ed26a5c21f6aa0ec1ed35f3f4ce47fd78d40ae9e9275b651461e8cb626c04a, 0x3fbd1d24c8098a4546a01e61f8f2044f47d972003edbe56cb48741aeae4b89ab, 0x3833d1742acdcf3feb0ffaebbf35302bec15b0e3df7c564023adaec67d1d1a99, 0x2a0a8d0bec81a4ad272ae2b670900ff9f88edced625e0f3555a22bf356e2f9ce, 0x64758251e41c7c47e461be87f63a574e1c8c8e6778ac548610e51a759cf6e283, 0x303b58fb142a4ee7557632ce05e8ea03b4dc9dd7821ef751345ac74080dcc71b, 0x1fe7be12e0bf4902fb43d217d128ee2704e94d4e391147b944cfe39683d96f06, 0x2537db3cee88c37dc03ac151dae822652555ca7953b5f961105072b47e49e52c, 0x3e55e8d1ca150c23df3ce2314f7398514c35c23a5c5e45391784c10fc6468db4, 0x271a6c3a4bc49200de5fc9be0e41b765c29866a791473489e48cdb6faf519561, 0x294ecaeb416424f2f5c2a9e5cb9236cc7b5696292a56bb14f96aa76a74b79aed, 0x3dd652444167f8f6f47347d475cd403e501ce32c515a2c1af1dce7f266b8384, 0x70b7cb49d14cccf5626c11afb367a25c441d478e6051655d4445f5decdfaa800, 0x2c56caaa129d747b50f14e07003febd91b3fd15844de6acc79b16c7d42c4dcb7, 0x3974dd4901a82340511cfc928a4547fbf2ef09ffd6358f9281343ce5f1bdb27, 0x7300f28f48856b568bd1e71ece81509570762c0ec617f84949854e9625eb23e3, 0x6f484b24b6604ee37af2b4c0240baed1362796ddd794fdef046a1acd8efa03f0, 0x2d5453d8d097f5a5ddc98a90c0bcef22aa7965153a75f119e2ed6e4227df2f92, 0x1366385a0d9828bac222f5a92b3fac4e181efd611aeb3e133f8c15294e2296d7, 0x1bc48adae58a8ab9e44082484d31f42651339bad4945897e125eba10785fa2b, 0x1934bff918fcfd762f2170683d78d6c48d22369bf0de2f28c4e5a3aea6bbc7e9, 0x16c9b859119023e301e37faf86da9a908228badf5b9d2db3a0fbebf263005db0, 0x1efc5cb2f3ac8cac27174126e1842510ae42679ed8bc01cc249b1f1769906288, 0x29ed5c30eee5dc805f51329af9f0f2ead9c77383fed6f6d782cc706af5de52de, 0x52745a25ce314d3eb23b52dc96a6602b4ecdff7cf9b063fd051245b78b56a322, 0x3692c9f6d77a218d6e5bb695139a5d3a17338f36d573576a50fe4d7ca545e51b, 0x533addc802b8b077113aa9a6b1e658077a24146b48aef6212502d5b801efc34f, 0x50055f9912060431b2bc663a305f46bb696cb8eb78e5b4c4d0f51f406393bb76, 0x6c68f17783bd7a2d5e2a87d19a9b0d78f3bfe4241ff25657a175c0fb5ca667a6, 0x1df332cc25e31b710adcaa18cff8606db023481c6e4a824a2909d03f64502279, 0x2e332e244f290165b276af46968e4f848c370b150e9135bf316f852a0da1123c, 0x59137d6948bdce7b43726d643e394056f19d4e4ca65dee0c3a57537f4b1693e8, 0x69434af5cf55cf9ded2353982684cfdcde52bfa8a0c444588c4f24a88defd8a0, 0x309fea120ab48c041ecb379b46ad47b09aa9ab402b6e2a088dd2ef00f0d4536d, 0x4bc47630e8ed5f3071a4ea8e3f4d46b3c5de93341d229700f19348c0e3e897fd, 0x43ca1f26ec2f92bc3362d0c8800b66dd77c0d47539420687c36d51296c578136, 0x5ee0c46c407cd498a4cc459a62fd73a524a5acb6052eb9bcd94fe4b4c65967d0, 0x7304b781fb5150b310ea324a82f82bcd440ed87d6b7af6a62c004280c57f7ef8, 0x72685b3a7e91a21e6f1c3f7b138f2117f4ed2f8206fafaf12e6fed42b78426e8, 0x10ca3166e8814b9e1f68a4606c9a35dd7126062c63838c8106b679a274f450ed, 0x1d8c128fbff4648884c62b58676a424fdf1b167d0880b08eb01149b2ff5c2309, 0x3ac1bdf74435e9a24e9af24b7f059fb8cc57081eef220600c22e5491933e5ad2, 0x1fad8331077200e9fa603b9ec8a6d980f43e07eee6607bde2a0b0d041897f70e, 0x9176fae7d4bff59da99226948a4e85efb87e2fc75a6dbe6b6ea78b0f9caff4e, 0x66a3d1dfd2fd5bc413926f99e1d95b350e41196ab280071e0b7fcce80a1352f4, 0x1a47763d12c716fad68f44a21f9d0c2ad09ac6fd72758970925a47fedfad4bb3, 0x5546b76c52621113271f25cc84686d3c219e871940d1e644d5f0d1824157fb98, 0xff7d4e38f9482be64bf76171dcfe60dcbe2de0da53666cc554988416d442490, 0x286b1ce1b8f5e683d806a87162b5f2a6bc580bd0f0ab48d6d35c3bd7826c23eb, 0x9b43756b30bee5740b9d205ea1b19c37570ad1776a3357324e0f257152ba2d4, 0x4e959dae5d052214ad3d6012128647d25a8b1eee1121b83758c88ece24a818c2, 0x4ddc204077e29da9cc99527079eb9c00132aaab1c158b1a58108b595de1b25ff, 0x2591852b4f7baedefd46d85143257344f1e28b7bf3d6ff36b137a00006590b51, 0x3c6868571b3467df36a841c99070f2c73b7eed3256ea13dac2ed56ac6a215ace, 0x311d256d0dada383fad0b80a6a05dbd2013687024bf3e9229f2ef92289d4fa93, 0x3bf1c406b38da9fe457a5c44757299d7061c1286682804087780798f01f4162b, 0x264334e17e746b69ec2027d4dfaf8ad96b3907113b410aaf194a5431a1aef05, 0x1de5d97a9b13f290fa52db15f5d65bbc32b22fdf9701a935dc06f2d27df18f77, 0x5a66732d2d586a2d6aba07c8c095078bea833a8f5e160817b7bbce89bafbaaba, 0x507a28a5af434cc3eefeccc4e553cb319f115f33f23c41374b7c11421116d61e, 0x2a3151571364fc3f8716fc0b68babadb6e28945b99a92a8a184f12ae5483207, 0x38694c5181bf9697e20f1d375ec772adb2c8b925a7f607194b87aef0fcd011c0, 0x579f2989c5ea6a60320e7f8cbddd2de5ed95ecdcbe02197f9bece581f0c88b96, 0x3c692c1017c471b2d361a9034d5e226d8b6176dda9553e8fe29e5b7405ac61f6, 0x3d136c8277e9e27e9e32d4c38845e7fd6f34d690b61eb7acabd6d9bfc67437a8, 0x1930b0c4f212293bdba8e1ee9556e1423ff80eb88ec787639f21a290cf71427c, 0x294910981bf94e543861118053daf1e94c69de43c3384f4c4877fbcd41109667, 0x149841e0a57720d572a8ad710075e94da5a452e214fecf1af7917e6cb6b70104, 0x2b2f4f387b9768226dfcf808f2f0d3d8acafba73068cb1f9402d3a868af1a4d, 0x32d93111b5a1996aeffe562bcc9c4d6cb31baadedc7558733024e1afc1e2c23d, 0x3ade1491f66a9f6ac23c6c5d91e3991dc79214741e6798556f7b5ed3f9f4d71, 0x26feac9d5737cc63ecb408d49e060b6dee77c979fa2aa591137e9f868c7ad121, 0x695407feb45beaf776f54803e1b340bc63e360ec79491fe5cabcf9e4f25326bc, 0x44c9cdccf15a923183cd1becf59de03934ef799bf8eb5c7410ff7c2f62f1e108, 0x6c549d364b8ed5c5077774c43de60391c359160a8d4ccfeccc8578a921507d5b, 0x2002038e8c05864ba8ad04af3ecfffe6b19fa138d8ab87bba420f5f43d14dd8d, 0x1111ee5b228aaa2b97f028b9f403bc0a246864bb93f7ab6ccb7cca1bb4d637da, 0x78e9b31a7d734a6f86c838511e60e470604887b45b73a8fcfd75743264c49bc, 0x472e32f32b0a272634fbe10b6f3151c183d9538cb3544f17d7f2529643003d67, 0x2bbea69b428f756cfe98db5ce4af76856b03c6385d6de575817e18dc27140a6e, 0x356843bd11d48f318a6fe7b2b8e1af08403c387d5b9547ff9c95332657ad9597, 0xb0f621f2569df5230ba97b0cbe69b671d23ebea5655fdb417f038c8bf82f841, 0x63949ece9dfd83a09e75c66629f3efad4355b21ee3a109a402c853bc89a77ce6, 0x24cd577ef72a9c25fab93bdc619ebd3238392676a129257325f5da5c91e485cc, 0x1065e41596a1b97d9aa2acd4f54000b74e6b89b031e7470b81b0b1024eb82b73, 0x34b8f8020184a4eb32ce1a59e8c2e5db429335faccec7a26bec47fbca74b7d9d, 0xab0f6abb073cf07f77d20d477aef359d5cbe128928709a06f6d2ad950127c61, 0x44013c41b6a0f31816aa52a585a2041bab65a9e77efffd04dcd6a2079ee381d9, 0x6dcc709e8c737f8178688ccf7c6f918b7adafa8bad2125b2c4503358385d31b6, 0x29265d03f48a9ceb8213aef14d253bf016bb69da9a4f9f05722a30116ca4cb6a, 0x28323a2f50d3fc3034b1f88ea216491ac50b610941ab9fcf3576bbbb28ce0dcf, 0x1da397bb9274b941046d4718a46a743bd5c19e34bc7f926138362fe08b3b8de6, 0x3dd0fd4c6098859a918d6a0d447c52b88b266fb3cd74ee86bcf8416a9e6c3987, 0x1f8ac05ed5c67636201fc60afa0f33e12632b4d46f8898a59194c6fd25e3539e, 0x280ffd541a618a59685b6e184156b8535805e0a7e8736ae7472e7f98f08c0fe8, 0x18928c9190d9763ee52746d03958892ed58bc682da0de047ff27007d5cf183d1, 0x5892d8b7c02e8a994c46bd2ec38452e64f179b0929c0837d1700863bad3fc0e9, 0x4952df349d4f64cfbe9afc3dbbca46f70be897c1911f9443900f095db5d0e5c0, 0x5f6c72bbb61b0e20208ff663a988a12c8129693e26c7debeb489b9a64928822b, 0x5da68a4212fb2658b3f808e8623845626ac0be5a8477f477a29195d499f938b6, 0x12a1dd2cb39298e4c528e236002f5dcf76332eac33f164fe97db39f3ec463c63, 0x23d86e78fbc29bf95ba765a86fcf28c82272030379153f7bf8cd273979d7dcab, 0x31d325823f46822344d2481f04b4fc894f38f67b8f85a2c2dfed438f9b95bd0c, 0xdf40cb1794769be1449144563e105beff3aa490299ae1e1583d661a4cbb04e4, 0x46681249245daa100609e9a5986cd2276897d66dd17c3b084c5a31e2f9909bcc, 0x69f070416bf2a42e568c564f9813f5be668c0bf38d35cfa5abc89d5f47c12a31, 0x4f7fe8d69f3f99c78d846cfaa26472254c26735467f23122959f96349350f88b, 0x1338e03e82c92f92bec4d3de96800a2729713c6121261fa6eca60e7e3faec468, 0x27d567b78dcd42e5e0571ab6705e94858251f7446135a1ab37d2b1e1a5c81ccb, 0x39326a942e4271d95c63ef6c8cf1a891d847add70c68dc9a24b80419db9b93ba, 0x10b192658bae74124c20c50217705440d7401636e784a6ad47ec8ae49a331585, 0x34c9410c1bb648b96a4060ce42dec4e443b5243f30b6b69e142998d27b23f9de, 0x6fb198cb30a4d362d4d97182132069b21e5f45633c744645e4bc43ace5623eac, 0x18a15ba20dbff5ea89e0d2e9cc0eb05798543d7dd79e3228ce974040736586b0, 0x73567edde34cd19e34d0e032955676ad831feee8125e2b02e97025d5f11bcfdb, 0x5dc994cfe5b71e803d4ceea7c112d12fd7e5bf424c5a6aa5c92ef8a8d780cfda, 0x26333b6debfbc31c3d34f49a1b94c6c3f248dc1454b6e7f0425bcaa1c2fdaac, 0x683b5b3fabd13c51f7e1f94d62f4a25e7693acbdc8619e582ea6ae34174789ab, 0x4ef2570aeaf22a39e1d513264e052708eaaae18391fb7458998c0f000afa69ce, 0xc6841b31c237b07fb05210fd4682cd7bf901ecc71963b2cd0090ffda0214379, 0x5d0e1f2ecbc362a24bbc9fa2f05d53433c9fb5230e5b0d761cda68696a0e16bb, 0x554ab72eafbae23d37dc71a95fca3c48df00638e5bfd86b3c44366a9293d948, 0x2921d3896324e020e33f8e0f2dc798d57375207d21d727c803021a80631afd04, 0x52958d9544af731c9d4cc48af2bfaf1625b6bbc457d2f67a4244a6c565cc90b, 0x6cddc835883e83b84daed126adc8e43e40d5d415b74788e3e35f8f31e8e2b6d5, 0x4acbea6584b3398ae7946cfdb555ed64485535ceb93ab1a8239eb1af50348bea, 0x437f311bd211003ecb8e24d3e2edb13bd3cb04b8771c6d7d470ac4333b3fc17, 0x2c0b4ae5756bc7a626ef83a646a0fb5b8d1c56a209ffc38a1b56c6346771cf80, 0x466981b44ab27a0a29f5334ca26ec0d1e236b54190bfc26322a9cfba70c52232, 0x5f633f289c61dc8040ef13222fbc47e6bd99f1d7debfce36382dfd6438193a35, 0x49cfe282dbb58886cbc03a6cf7c147402791e19b7e442e92a1c81bb9ff2df7, 0x3f4c8d9335838b16cc4b6ce4805fc25ae2b4c6c0381039a9a1f57c5c10bc1c51, 0xde5f0d760870e660d45d7b4572cdeabe1f93be9dc99deb098a5791ff0e534d4, 0x65ca4bb189bc4f7633a0bd8d696d6402ef1e61c723e224dae73fb1bebd9ecd8c, 0x6ed4eff2b7c63a74bfcf1a6c2d7f6535231a179a946a880d6bb569bc105ecaaf, 0x3eed5ece308b08aa22f59dbf02e1db3aa04509ec78388ad403d6ee2dcc341f8c, 0x284982c6ed9e12fef154eb968f270c243f2de4d24fd63e0d6d525b5e1a7d642f, 0x73aad6740ab74727c2818507f5a2cb85f73e578a646a382f5aad1b0d6160969e, 0x2c937edb203f0331fd0e1cb8f488cd147f1d9ea2892116d2fb9e71317fac131a, 0x6864d5924602963cd9175f88f92732a61e89c9fd5942528fc614a9b13b22dc5a, 0x47707e41ff91701ca5a1e7030cb6b1e6625f9122af066e9d67b95ce036a4effb, 0x5547fcde93f4ee32928b58ecdbe175a08e0676d54ce8bf3127203fa0dbc9c674, 0x10473719e93e1f7bec44a2c6eff2dfe97b09809b21d229349d9d4a18e27e5254, 0x97f66b610abae71a353ee8c9df3b6e3e4a0a148848f8f44c3e6e0bfd0f1facc, 0x6f7344fbd6281fd893f8ea671e61748f42c3178e78f884c03dfad4d067ee27ef, 0x5ddfd6f82985f3e96a46ab530aa2fa3cf60a0be0811156c6ce631c3ab0a417cd, 0x69f2c089747f8f2380752617c00113c7db0e9cc1c0fc1c7fa4e1da9b7b2bb81f, 0x5d14119474527ad385f327b428b305f5c0c128360eaff60306bd1e635095f44b, 0x215b333bdd1e329653b639ffaf8bc8a2d1a0288f472bf7f33ad11b0fbaa8db3a, 0x11b295e1140b2218225280c666083473279804c123e3c1fbd0270839d960dae4, 0x6f393efa838b5cbdc464c8d7cac6c64d10fc770ea727e9341881994ff50552f8, 0x4ea85a4540d57927ee5f500ecbf80328e56b8a7640e69f32d006df397487e82e, 0x648246b1faf04628ab3c77ae56af46637d7454cb92e1cb93322a831924064a6c, 0x54f66b7b1d2fbe2a223999657638675a06a3cbb04963d53b24c157569a664315, 0x639b6b57a2250546295868d65d4dab5a26162fe256ae79d220bf6181d94c7575, 0x473357e624feea1cfe7825ecfdc51950292af055e4b568639735ae54f660ae9f, 0x4753ddd9a584402c06cd1087139c1a8ec103c0fac0a00a01acd9684157c83a6c, 0x1f8aa99278287a83b0e1aef4eac3892d7ff09b166370e994a5ea20e947a0502a, 0x5e6e570a218d8c4c7d9aedff9180a099ea674aa2ef18fabe396ac6a191ffb2cd, 0x361daf308f982696a89b640cc03faf04e81883ac5308164e3e75130385e44a7f, 0x670879febc682796b0d5c8854b23f88f6e4cc05774f226653e4cfb2f3504e560, 0x471edaa8a0a198804090f935b6e23e52e22c3be481b57e75772e8948230fc46b, 0x48cc4974ffc24dbe45919fe2e24a38e11567b5f7901af51cb2916e0de964400a, 0x153a4b13a550ddfc934f9e68fd40f8661f574d6c5080488a59b46ba4f5ac8d16, 0x512b1d7c2ac384ed99ca47788752426db9225c5444d449c490d4158ef054316a, 0x253cbe0bc0ec6905e7c8da55045b5ef26a2ead296dc4b433368e7449bdfc8076, 0x42c8bbafa2f3814d594bc2cd65853de32ec0a97a5961807ee0c64d224d357613, 0x2009c8209becb483c796f6ed41fb7ba86684124e4238fd7a81161cc13be4dbbb, 0x5f9e9d574ca21353aee6cfce72e35edd30e282c9f074d368177a06eddd1b2b17, 0x33f5db59a8889a26388ed844426d7f42f0f0a8a3d388176a96db6daff7c5a3b7, 0x66fcd604b259b0eeebb8f0a212ef69eb969aa7ec96b656adde19303da7aa36f6, 0x221dfa980aab92c56d05b23239f85ba755722158dff93de9b828b4fbc7793d9, 0x5d5462d64ab697eef7c8f45fc7ea6e1e34056311b7dff06e11c3880b442f2e41, 0x62d3db269eddff968cc3b1433bace5bb64a2238e0b1389c58a2b528bf2018699, 0x6838dc9252b3abcb668b0d14b6652f9e5c49dee3c99b98fca09d4d8d2a1a1ff7, 0x579682528a80327fd82e74f49e3ae23bbf2f61770ffe4d3cefa2c174ec748e66, 0x5fb0f149f36947ebe5b9e22ccf3ac8f5d88d9fe8ff0775e038a25ac6fd504d12, 0x23dbeb70db92cce2fca0a24c0abf9f29bf00124f480e5cbd482a47ef39bc66ee, 0x359ebdb35b194b93de114e4c07b3fb1ee8145e36bd11a1e6f4d88f36024937b9, 0x33ed943a4ccf351b26e243ec1de84dfa810b4fd20fba4fad980a9a3169dd4f39, 0x13296d49826b955d39ce19cfb009ba2701c24828a1085bd94d93f3cc41e1c01c, 0x510804425343f19eca6c12e22d75780c3bb303d07a0bc0b7a93ef7db2996e4e4, 0x3c74e431e0eec38bfa604e0f9524b8435b8700e5e365af0ef7fff1ffcdc2c4a2, 0x4b80e9d079ead294baa60b314d95690b078ab6af7d85f7e43f09702ecf8fc6a6, 0x1150078d7bc6d9e87e184a4e4cff6302983f01173f4c496fa92edccac8bd4967, 0x22b605ec219579902b1ac19832c2c8ba4bf7ad2c2ad3bdcb9bf84dde40b372a4, 0x38e5feb7f67108adb0f65b85ff3e465c229755638b318b65605ecd54ff08a895, 0x5308cc1026058797a3ef00cd8279ff845dc9cbedb3f162a7c5d94d287f4db49d, 0x64df5a1a3f3f245578ec65cd6770f339b7c1422cf032b18542e69fbfdff3cb55, 0x22f1a2154079c6572f4ea4b70c652c83f78fea4d33ef1e0232d53d89b62d4094, 0x1f923490299772c87a0f47576ce7ed853320929000a0835a7b95010617908e0a, 0x44853ad256de5c77588948c5bff24d266b1bb2a342a151413700b291e180b47a, 0x6a8dd135c2e5c65fa502b92551fcb5122961301bf576e859e352de2a63d1da95, 0xcc3d6cf14b2f955c39b21dd311629c517f1b41f5de8bf8dadb829e2a2dc506e, 0x107fa93b55eb7fa603201657d3129273cef55b34f6c75e04f99ddd5298e6fa31, 0x73c3692aa60c565c0633e7e12d10cb3f4af3c2429156ae85cd414a735827e202, 0x275a2b5b5043bef52366087388b590aedee25833722be21fc80be342d8813f85, 0x6b8e6424139409ca3b2d75dc183f59a9e0e3b27091a81197dd0e972d0483299, 0x32cb64e0e9bd85d9c64f1d1c58f6c373f3dbcf4ca7ad9fc50e86b5decf97b0bd, 0x4a1f1254c03df56215ef7cfeada020961b8238d0b6977d6d582fecf61ce5bce7, 0x228835c897935418860a6a7d3b9f6264ed1afcda2672979960614504091eb29f, 0x5cab58bee4463838572e80a5015b1a915263a29bce1ed57d12aa64309968bde1, 0x466bd25c52656103d99c56bf41808d1adc3519366543c70b38182a2d04fd44d8, 0x4dbe5c1b09f49da21aa279cf2b0a2b124333c3d5df532facd47b01704253a993, 0x388eaba2d0fd08506a1c689fa7160ff8d9ab526b3f56048486f48d0f34079b30, 0x38fe4e6ef403968b376c80a8638fb626904734a271d81d85f28179202d3930c3, 0x219564783633c0f9e48fa9d037cfc4d07455acf8242f1bbace9c73ccf8929af3, 0x26a94252f5b26446042be9b79662f812dd082de1fda33314b12be1a26ecd123e, 0x5a88d0adb0b67433a90588ed647774b46253d3b1d3fdee3299338a9ebb39c615, 0x4bfe640569139a5fd6bdca47b86ecd85a9c480201e7f943eb0dd72c738dfa80c, 0x20a4651925c0be3e4425b2f7d7e1f14d05fec2555410e423a50f6dc0597194b3, 0x29dc40ebba714294ee872494c6a0c5f09dc6f099199aab587a60df0b3b460957, 0x6b35f3795d5bdc4e91fc472086f2d65f34f49b2a5013817074a79a0483a83a85, 0x48b4ff280b8ecd61cfa4232b772859b8fda714570285bb457550a8855098087c, 0x1f0cd8572254bb359095e9318c8e6bbaee7a795b0ffad7735b8a4dc9a59ed9cc, 0x6a4943ef337d3833e693ef0473bbb4dd4a62711b677708f6bc73fd57521a01cd, 0x63f375f5e80ed69b5a45131dd2e9db179cdc99cda51b26ed62df843317efa25c, 0xc45d425016a040d1e3cc174c967d9d2d996399cdf31ac8d915f07b065177be2, 0x4574fa0666de0efccd3ff49650376ffbe21156a1401de1aaa1f2eab2d95bb3af, 0x9da59afb3865b942f3d3420e3aae598814796247b840c497b2652c6393c9360, 0x26ef1eb2fb80e39c7eaf37c332c2820360f6924f32824ea550c6d634009f22d5, 0x6aca2d7049dba8cc2686a659f1c917498eafb1428f17ecc1256043d085c421f0, 0x2a744dcbf1adc442c8e01f332698689a90a436b8ec47f5c70f53deaf6a18847e, 0xace48e837b07318dd4dca5d9b7f7bf0b4a19603316eb2904c0f0fb460109f9a, 0x1e0d278598b7c3802d4320b953f9ee75ebd16f2501c46c664be07b5de1801dba, 0x566d83ba7b8974aeb12718267571338047ba81d311b955de6884335677126797, 0x294768ecfb309b5c2837733bd399597271afc5a8e34e935b346ae84379cf2239, 0x7c41281e93e75649787ba0f45ee111b54003a216c1e9ff262dbc5c929e4ddeb, 0x31512032d5f4f4fe7943ed4b7761dd780aa198cb30392918b8e1dcad8e70bba1, 0x1436200ff1ba4d1adbf1131e6d5814972d72eb8e8a715f4a27444a356d59c218, 0x5b4ec8f9b2ed1d58eddeb6e7fd0e23f3806ebd86b8a4696ec40c8439508266e1, 0x581a51e3918581d7123fb755ce0b8a63dbddfb4c8e298af4db7c2e30921059b9, 0x427a5b27107447cf545471d5849630b3ef80bae25acfc5424cbddfa0d16c574, 0x53660fbdf7ee73620f11bdc1dc82e8fa5ed8647c70fc25f2dff58dd0bc082068, 0x280caa599a40e24004343a2208f9d89b3c123a983ca6d94cc44698cca072c6c5, 0x276d14fe49b46aeb03e0435389135705ba5bc6539a427355bdfe2f4157d588fa, 0x29a017deea15284ed7836697a07c1a1d4da79bd22bbade6f43872080fd1ccfe0, 0x2545dbcd288ceadb3e429f514bd8e46ae0020eb6818da92947de1419213f4a5f, 0x33f92e327e27484d92b15f613c48ea222bae3984bbe8c83f8e3fffeb05908598, 0x3f1ea414e656d6c40b8802480c860650ce06eb99c5784b3d5b2f7be9e9665cd2, 0x22614aad7d442e0d252fb49a482c84af70dd62cadc5d0da226ad672415cc0466, 0x1bc9e22fd095be208ce768cb5db7559274d3fcc59e39b613d5f491709cbf3f0f, 0x1f4daa3539894d45ff57788dec66922725cd7232161e628ffed050ddf46ab4aa, 0x490e170c01a2bd36baaceddf4882e3ea957813e494a33309876ca0fb4a81b87b, 0x4b5fa2f848b03a28282afe59c86dd02ed2e2a1c679a801f008e9b7b8de7c31f3, 0x53f96e128cc3df058d4ff951e2c8f798b875e347c864eb636a6472635c5e521f, 0x4125102cf07c8ece4fb1af0e81c3e674855165b49b86003ddfc1917acb9d315e, 0x4520b924cafdad723963093bc0e19aee67762572467452df95b0857569aed188, 0x3c536ec0a9ef2c5ec9f9751caa9ada74deac8490953ae2b1f184d04f6de3a099, 0x4507e00e5334f710648143b4db9896c4f19d30df753403614723aceddfa03b03, 0x6754e0f86d07221f25b53bfeb1077e8671b74d4f09852cce30f2dfd955281e0a, 0x245152b4191aea56cb061f698dd235309edbd2753cd397bfb69baf1effd7529, 0x3ff47bcf32b732a63cbacff4431d34d692976f1b1023a10c3614df2d379add3f, 0x272191b95ba1b8b61034193f4fc14353bb119d067804da6d9cb34fc6f23e05e5, 0xd66dd265fcb80e0bdbf852deb8421fa89aa0fd88c28536b3d3c2f25dd345dc7, 0x12045dfc27f4baafb5d59dcd33f3e16679fe3ced784ee0205f860805f8c4f1f9, 0x23c71e59ac56380d36db2872a955003998ec6659c176ded14334d7ebb9f6baf6, 0x2110f3abc0ad510c4e550c2a19addb7727a126355d58a8714189213a3179e386, 0x242c7e59290ed214804c624d7c1f6da75fe6c08be5d30114ff8c9b57905aed57, 0x6541b8afd14ecff41f77aabbe6147ff402ee1104c58deab8198f23f1fe1d6d4, 0x2abf617cd5691462a056abbe86dedc2f904cc1d7f03670b26ac15256b4c8c880, 0x19790c96ac74fad82b043a9f82dcc081e9188ae5e8a86bbe7b341f04196b2884, 0x1675fef23d6a97c104e2ea741f9fc3664d1b651e7b480c36eda6e58defdc713c, 0x2b3b8dd182b6a248fd5214617b3297a54bde7f7e1f1354311025c89909a5999b, 0x52b5b8b24e80d4b0777c12de9936b51cd00e155b2d3952c1e3e1143abef7e987, 0x8c9fb85b91b848843bdf889cc2bb8ec3968c53e1ea3436278a23bb1ee683acd, 0x7340989d362a185d87b9d567c21794c53f1d0f7c50ea9385bf2e3a5d5c332505, 0x3cd2be1bab111c49474841208b2b01534a091a94c4e962e0b480a93480a778a7, 0x4b203033cdc92a9c100166404b64b401f2f54e3d65e8aff2c8686af8da67e490, 0x5806464d1d7d9e3c35bbaa79275e3fd735eaf82266a30772072f80f136d36182, 0x5f70ed064adf1e0fa9973798f499721eea29d858b87bc8987e7d862c56c53b22, 0x30bbc6f9daf5d78fc5b52b544c38b6eeaa0a29691b32e883c79f7145c152171d, 0x39a9eebe5caa6802da2a77b7953a5aa022bdd607e17a7fc5212e918d65633298, 0x30ac1245d3b044493428ccf1bca2d37e25276570314826c36975ffff98115c29, 0x335a46fcec0d2091a6ae0f8dc9436784900eaef2d551a52eea9bbb77e829a4af, 0x38223151b14cd146b4608f862d36b904e0caef83ffb438e860a8bbb19e3a2e3, 0x5cf96500f4e4123ac360ebef00083b24b2a987da402ee83fb64f5c5c17c94a5d, 0x30429a21f38bc61afbedccc830668e71cb7d6c02834d3a250204af65eea6986b, 0x41513f3a4c6b7d6151bd1a0c0346d8faaaefeca29d2ed142006262bcac6a8dd4, 0x3546601e4613fd60eabc024d1facc2522388073bd44b08d74f0323dbc3c87240, 0x255e26659b9fbad765979000a2402e5f47047d34275886189591c737112137cd, 0x4ce281acb3eb421f45cdf06aeae4404ffbe0102ae94f889a40cce742676fecd9, 0x5cd0f6c2cab5aaa88862ccd2b7c28902ed75a9f45e13d6067fb6a68b93f6df13, 0x640ef90c34d00d7de0d807640c438a8c34cdd93b9a5c1f8b71e6810e479b01e1, 0x53dc780b6df263cbeb484bfd857dc7b439db8ef41936faf92028c7742fbc01f9, 0x18d77350ad3ba581dc42b2a6a5e56ad9aab30ad13b0628f177d6810beb0d2b5e, 0x3455698e52dfe7ea42da66d6ff0d0073991803aa0354e78dc216bfd1c5e48c38, 0x19f279b250d9270120c7f885de938ea5a315877b919fdc07c02624a09d3aa248, 0x2b4ce7911f898e80a0e3d90bb772f9fcf456eec96268c6420f40df78dc2e15fb, 0x451e1d44826160d8667b22be62d4d5ae7668ede73ee823f437721ac7cad36db, 0x372cf06d02fd0df57855a754ecc5d7c3bce6c4c74435448a7093023f67b22bea, 0x45ba265bb595cbf2ac481ea1054fbd65c8def0c936756fb6a4ae8ca3385fcc38, 0x3036e8c234d5313b1290814c5fe155d3603e39c4eacaf3d32839d6a3a04c7dde, 0xceb5c4dc0005a2bb81c68793bd25e2f624747dacbd9fa3be156274e7c9c935, 0x18c792c36c4d87302b6c31a7c338fba1825b7a8cbd93f768af903db6e40cd384, 0x1897a1ea0cb48dfcb7c9bf61d9043af0ced32075f4b76fee73ba78f94a4d3fc8, 0x7314b5338818b4afb8f3b5f3ec23d58c240aae0fe83cc24f5f770111f07a3db4, 0x25f8aa1aea5a7f979325979af8e68c36959ef4a498353413dd4c579c7b3ea952, 0x3c873744f89fa14cb19d653149a698255029a906f3a86dca4e412fd35daacf42, 0x2c1cc2f1ef5a07eddeccce1c612788ba4bb213a663dfca874dfb2a4f7550e821, 0x229235a61cb2ba912d529cd844b9db71bd21214ca4d6ae613a0d8e7346fb8828, 0x3c9f0d3224d80c52d1fda434e8ed6decc66e2769f42b25b2be766751a317e8c5, 0x32109135b3afb98388a2fd68a89cb6955d477fca4fdc8d95f97b30a0cf17a73a, 0x5eff6e3b320d38a2751ce121846dc8572d3ec5605781b5bc0bc2b18cdb715d35, 0x455f28fcb91e013435bdc781bea945f4db4c60fbed247a372a0fe1e256d0e7a, 0x37e37c3eb07ef479edad9d380d0d2272ee409963ec76acfc5d3ea9ba78a7b63e, 0x2dc0c2bee3228b8c2f18fe0a585c0081a6cc9c27028bd37ce2690f8def8097d4, 0x2cb5fad25a9418e648b221da5588299c3fd04e2057bf7f71a19c35af6b139cd2, 0x436786767e44829780277c059d433678c9e143199c3815bdf1db08f72cc72acc, 0x3612d1e98c44d5af71010517ac1b49999072de87da5955854cdca042ffa6c3ab, 0x4d51abcb80f8025376eeea6943d216cf35403a7f3e3e121b1ebd5a51d002b69b, 0x444b126ef0805dc7a4f63640cda15085f0668a9a11f61df883fd411bd8fc66a5, 0x6f6e689f87aa123b5db104ba593b469114106bc29ffcfbf44aafaf188e30025e, 0x5b0ed1857d75c8debd858f72b1bd9cc861caeab99db9cbf412466eaf88b7195c, 0xa5ade7744d52695c0b323ef0ccc0b47edf48e2a2ebaca181692bae54ef0ae22, 0x3b5b1aff8f11caa5acf1988d688bed0e4fb2953a2e78a09b4f0a24d866686015, 0x23fa1fcf5075972c68f2006b9b0e91581bf7532e0fb9dd421caae8996daa32a3, 0xd764df934a3c9a37f19683d2d43047c859456445a71a02dae2a3386d9aac9f1, 0x3e2c4e329cf41c437b9326d6e471188af7f19a64cf121b95253ff184d5de6275, 0x4a899b954b391e663bc7b70bdc0aba89eb40aca504ff90261f2cf8a5cfcaa03, 0x8160374fa430ecc5081110cceaf2f290a65b79abbaefd16c157698205fc2a86, 0x564cea3831fdd308c7fcf9a475406f129a7085f7efe0c0d568d4f8b7e60484fc, 0x5069c59ea3808688f62eeafcb9cd0e6537da9722d7be285e80a7138dea1a8f81, 0x481d2bd63fa990237860c5815a3a89db73c9148fa8c9b8ca26ae9cb01f2deba6, 0x31bafd0a2ee1abe8073f336d61caead1c79e825e5e7435cf4460c9c60799d94d, 0x4b28964df92c38bd09827115d1fa5ee7ed33f1854307fdf4813d759a3c407fd4, 0x5f761f1c75d2fc946794cfd9b53e0adb4795b5d77a21f4737abd374fc80c11bb, 0x5525c831c6e1f2903845db4e1c583e437742a283c2717320d14a551cbdaa2534, 0x8104e8224890825e29c146aa3155ac23fcb3c43f10efc8c166f8bf2ded5e5f3, 0x61f9a72bed8444affde4d79864ceae61754eaf9d23d260fe5c272d48a2772686, 0x6bc56bad2facd1cd0c32158c0305df6121e7a9f92ee878b482d7cf3d90d022e4, 0x65cad4dce89e31ffd3987b2a303310cc46177ab45de1622db4b8b438bbf38541, 0x2527d0fd2fdb473bbd277e2afe4acc43a2366fa379922158a024ac6c53062190, 0x25a7be3fd1434e6ed6918da0b88cb0b26cfd02c5bd872fd7cfffa6058ad52c1, 0x16f2723cf42954b5f987920f0dedd9c32cdbcca2f3c15331dd20339155d73438, 0x29cf37efaff7c88f76f43d5569ea7aa6c6f215437492444bb94e0942ac111867, 0x5a32405244b1aa0b57e9ff4a59677c9eda8e9e71b31bab55b1c937a9b0128600, 0x3f559126361edd9aa48dcc00d655768a3c25aff4c157410d7d4f86fa489554da, 0x541abcdfecddc21c5db6660ec62f3fed8e45341aa57c44c467429a95ecbb8782, 0x1a99fc933bde5d3e6574903a95209478aba8d8da8672c715875f55d5c7a465e7, 0x2a4bda548e295050e2cf937da2bf4328b4aa7e0b1e78b495316ca298b566da30, 0x316250c318b8de11022aff2b8669d719dca3b184f0a7adb31f63c603965ffea9, 0x386167bfe882425f87647bf94c9e3524819bc14ca995f9541da8e97f4d51bde9, 0x39f4cee0d6a58e7f6e130f1eab4a07082c708e10c6cc4744f5146f6cf623145d, 0x3fb93901a0990bda4c6d97493130bdd314de032a0d9022a2dc88f95bc65a3902, 0x328ae2d78939cd4022edf7bf0ddf23d2dc99b26c85247c9cf65b370bda5c5ead, 0x5bf5a884e38d794093dd278a38d2a5d16261c07d35de86136b59da8f0b6ccbf7, 0x430fc31f2c60e8c2658755f81107df280cfb00b3446ee519f46d9bea963b80dd, 0xe62edb12c7160ca0f5258e1e298c72d93c268775e222ba8792975af6ef16b78, 0x61da16bbec06e60d088e63113588664edeec112704eb82302f9f27d6eaf722, 0x4965813c234321bec85db1d842bd29eda1302060df285534a357bb8696ec5e3a, 0x6678b419ffcbc014511db64ee439c6ecf0f39756ec9c911d3690896d03b1136b, 0x68db22600928f237fb735969ee188b367120cd29c43f6a42329ee0f1535db1fd, 0x60234a1b227b8860e8d500d9dcc1ff2cc036deeb184e7cb9a5e1539fbf3cbc3a, 0x503f9a3c3f43ab3a9b9b64e7c772b91d600b4097fb7f741eadda367df7af31ea, 0x71a2745d94771703917b8a76c226cd850a797688cdab0c8a889de3ec5d7f3c6, 0x1a0eaf9bdf1873a3e5c58cb1c972d8fdb351f312e77049f6c0200371c4218379, 0x1491e68ee98c23e21e71330ac3b54046bf78dbd55b929da6363f00b7b9c627bf, 0x523e0c8babc51b0f96bee38f57c5c23d09b7fe04673fbffb4e227b42f6442d2c, 0x4a9ae6e8e577b44000f019572ed7df0ab3522eb95233bb92a35576978778f954, 0xc60767cbae1820b9533ed305b8ac739aa78afec210eaf6f046f21f11481b214, 0x3cf7147e8364e79a89d39f8d7aead037cb4b37ab953f4aaaf2a9f689f16559c0, 0x3b097f9c25d91e4d31c02ef41d2079cddd8db62076bb050dac5c994d61c5cb6e, 0x42ca2ad8c40615da0e31d2782b291fa78e0dc24dd7f984c2c05865ad9112bb68, 0x55e1ef0b12f51fa480ecd64399e074f3f579eac6062711bbffa21fa59d79444e, 0x3e261285d7d6f70f4cd6faa1f9647cb2c6d6dbb2b9430bc0aa05a337fb607257, 0x5c1d8c08de891852e71a4b15b4c0befd40af71c83533e79b6fbe4443762b0175, 0x29c03563b5d2fd6f5aff62760c7aea2ff22f0fe9303d1415946b0bd29dddaca7, 0x4ab8551d17023df7ee27ae2f0fe883bb0bfc585920a569a807b30243fec3435a, 0x705390c5ef38481d77f9acd3048ee71b97b818572b40fd640c1fbd9e43a4d77a, 0x4d85e99e5f06ff1d0ac2bfe0c4476a619c3492b92302e2ad2cd6c3e4faa65b57, 0x9d4600b8b173972d080dc90cb489d0a708909b7f9f9dba00cb172099de8e9ca, 0x34b809ada7500ffc45d208fe9adb0e6218e71a3da2532d8bbdb1eabe7051ffc4, 0x6486dc66c1f462264b6c9b3c8b2fb8eae2ef367fad43067de9e4e675b2db2f24, 0x4eb6cd2b84b6c504c1b93f1f970f98a3d1a02cb868a0884e172057ddc28f2889, 0x49c3a7780a4abd1a0ad5b7783580111e100cf391fa7995b7ce26fb93e28c15e4, 0x1997f5a45fa50a58ba4aff10e6cedc32cc82400633dc1fee6f9949d3f86cb1d, 0x45cfe47f58441cb5b00fc46b0252cd5ac9e0e22ea77369a826ea3119c33c4d8f, 0x1da6ff0511af210a796d1ea705df66ee60f215eceb03aa6aa084931dc51be30b, 0x6349c25e0f8b80b27a097ae5d6a18d455788bd9e5e2b0d89c9910bf6d6721b90, 0x1594fde956b6716860fb93bbc316c0a1d80e2df025e2c727592186bca043c5f8, 0x5fc7c1dd7171c6e98e08b82e9eff3773b82872c0f82f9b3c021be81e281d4794, 0xff1bf1e7897edadd5b21805ac5fb9a878c260496872e8db8088db0c7a124744, 0x5e57bdfe1265fbe3de72de26d946afc068209cbb3e302a207ee572a5bc6c4657, 0x1b9f7d82c347732665cbfea5b044119f072632796c9f635be5b3f5d9db27f521, 0x38e66e845ed325b76e331cc8088615238752f912db1afeaa4fa55e16c14cb96a, 0x720880e4eede9110d7489a894faa7269123505db6aa65eab9b198155aa3f1962, 0x20d0731524254e0c608d1820248f3c990d5fe0b18ef1e07dfefc0d78fefb7802, 0x3e0066533e1022097df78f9a530cb0f90bc1ad43cb2ab683163bf3b4e439e089, 0x7518c73e96e59eaad495ebd19a9fb72e10cc41ef4806f10845cc0167777b3cf, 0x84792d2a3dcfb71c276c215bacecdf1b2c3877293a04790be95b85f7e650411, 0x3520bd567feb162d581d3cee67169e35a53868810036063670b541eb2f88fabb, 0x17656b8b46368d6ed1cdbaf214387bdccd56f9e4172b5ee98fe4fd4413299526, 0x609b901fc97bdb4b0f41b1b8ef81f47ec360cf7a8920850d4e08d84e806e99f1, 0x5b8ad96106b54c87317cd7fb2f9601b2bed3b00627d99e3ef6c621f8c50e27d7, 0x2ba94cd64e4da984dffdb759ef89150064bb1f97f2cee2bbacad9c38f6389745, 0x6e2e7b3fab25eae4f9e23ff9f05457cca2bb6bef606626d862faf32eaf62e569, 0x1743048950436501014e5ae636cbc3cb30c3d36961092f5e4cecc6f843e3ba69, 0x6a219cbcf5b848e0cbbedca0b421b47687a709df73af25de96317764cd0a0568, 0x5bae44fadfd5018316a0ae1b4424d163b2f5107098ab9274c469b6586162b59f, 0xbf70bd2251644d080046c9eb04d8dba8d4c1b1f501c406fe3f48cd15fad306e, 0x15b87f6070caed669d8a851d4ca200025966eadfb032eb88af035ee6582fd09f, 0x8a412c1f384a0a3fe4fe5697ec2f42d33cd90035a7ee331349c183d6d3b21f6, 0x3296b3cfdc8ad6d4faf1670083b20bb9195f89130ba4038c7e45f7cdb52ddbaa, 0x4e1d6d71efbd9335be3e4ee53f7d1c50438b622656cf2b5f78a3d80f7a3cd09d, 0x48dc95985596c603dd3bc688dd34954e27e1f34271fdfab85f100ee184a61df7, 0xe2bec4e59f4612e76e86fafbe710949d226ded55124e9ba41f770a9b94db68a, 0x3a587a1dc5ab32e8eb4ea9cab4617d92508e596fb9063d19648b07428f857d5d, 0x115b11f31320f2d0f9042b509f88eff4cd4dd65014f78f74b0cf2085a2694ffa, 0x26e2ae33e6783ba7da74b8f2e5bfa9dd740234c6e35d7093d12b98410c65957a, 0x58ff6df86fb5a6750ad47f68e2bbf7ba6b5e02a898f4ddf6de48f8bcbe457d55, 0x641b6b038915f9a19f899de683ad8870acf95b548bf7add6cbc9ad4c9e4fc1c6, 0x4f6c9a059a09ddf24196e32a60a8fa65dd19998f3659f68d1d84303d79e36169, 0x22107c63953bfdc787a9e9bd536845b946a5ef1954371e0f51d77f737ff00193, 0x6bfe983fdd4a45b956ac3ca6fdd04a1e6c42a813cc0fc912592ea294e9152159, 0x4bfbc5239be71a3a4e1c865b47163bb59343cfbb79a60d59255f51dd238d81dd, 0x1cc37e0742472948fef1e5ca26bffe67a004e40340fc502aff382aff0fc20439, 0x571bba9a08ea160c250ed15800b177e3da8b55923fddd12ce1c6afb2c1598c04, 0x44b54acccf3e4345effdc70179002500636293d635ac8a1c0e3fbd950df623ef, 0x100823c8fd194cfe0dd73e809e85e7a67698b648c3196f1e654145c3a3bc9b8, 0x3c0f7347310b2d4259ad2fe6f9d7afa0c2404fe450525c97abdccfa968799f1f, 0x704702da2c6d87df38924db9ad03bbcfc0f4673e94ccdcd23c06d29e1a1a9359, 0x63ecb129b8806789855665929f62627e666e6f48d04883183e7ccc904be9395e, 0x1049633ce2db1e386ddb247b1aaa53f04814f3c2ea2315ec9122ed02750f3d19, 0x28424099e2227b377e03ec22ec37b9c55fbe7831134e7015460584c35d9d1cb, 0x48de305725cd83de09379693997d046901e821b2000cefa01bdd4b6898ce1d5e, 0x3f94bcc85efa1cdaf3e495a6884b22b32fd1b6168027e8629f09da1175f08720, 0x39879bb1e356e54f43bbcd56935e3339f70d100c208dfdf18138d0524fff2f83, 0x514a43f54049ee96d7b6b46ae28dfb60246bf1e2ad8888f48716902d4de323de, 0x303f7a23b2976679952300f2a8a5ea50d00559351921de8b99641924abcf0b90, 0x85dcba188b1c82c5b0261079279c93b89326d04e7d5aa320a6641c5befb1372, 0x2c0b4c8aa812e345e425b1a1ae39febaef4004a2243ad10ae57f985291c9fdd1, 0x5d6b0e309c3431db28ad8d0a0b16b4f306632e2549bcb86adb4348594a08bdc6, 0x5598b34ea2cbfd1997de47876e9be292a8e2b17e9493b49d509c044572100cce, 0x93d72e5aaff5d266fc26d7de5cad3382d793cc6be2111a78f79a53008b0b724, 0x670f4e32b90e469984ca5f651557c73067975ff7ba99f00715b614e0646b6fdc, 0x2183f5e6a71b06a214cf1c076cd4cfe2a4c54016fdc1ffc0c2f3616645b2e11a, 0x15bf424f0e63942a366b24a7b38bc6057d6241b4eaa4cebec0091ceeb5b26adb, 0x51e8cf223378d6882650afb7015ce4691f90b521a5e79bea12d1da64a733e4f5, 0x50187d6ac52d662686edc74f695e7665a3de34db1aa84384e817e50de2f3e8f4, 0xe50351107164720d3e5d6b2de6e6ace3b415ce1ba29eca91aa1814ade109e47, 0x6d59511b5ee18daf3984864682a728c337e585e47cd30c627320f285323a9553, 0x2602572c9d22c13b52ab5019a8a9a43001cea2c2e069dd023ee95615f72dc983, 0x3cb09cfae07beeb9f7dc6bf9873280855e9d5c6bf689f76882486ffd86702c61, 0x23314de857e8e79ba16af9c331335faff28f6558c742e5262d6f2bf64cfb41aa, 0x1405dc33e7242772418d47af0f6f1fd07b8892305e0ca52178eac5d982d8195a, 0x73d7305fca059faba03c9f5afa71b5009a098d02f0201bd12b4207c06e6c24e8, 0x6f0e86203e6aea5e05176d4d55cbeb6278b9b2e389f92921eac62a6cc0793158, 0x197f7e5cee07916d0450cf2b6aa9dcc79beb221c9bdd863abca442347de1041b, 0x200b934645822fa70a117526bfe7feab2e4bc1e0ff1c3cd604fcb619617b9ab0, 0x629328edec9b38ce6998365e5a6b83248adb4bffd672bda12ddc9267ffcd34a0, 0x1a473929624f572d2dda3256aa497a371c0904dbad5abbfb344da6d0e01d9470, 0x5b1c57147c1e437b1da4f78bd1efbdfe68aaaf802bd00e2cac8364ecfd1cb023, 0x33e0ea454cb731995e50e70dc229a48aff22280dd2437378b83e0c18d2877c31, 0x508f68234c510b0f681ba8f58d0fe192f4faa22af243dec32dc181ae611a0921, 0x2c66defdfe6142aec4a9e451b2a6aa152ba607994c76070f1afa9a889e3e345e, 0x26bef34fc856e4ee7aa54a4c51c54565ba6d08f0adbf727920d25da807fa7e39, 0x4986172e6bf3be31d68216947404a2c509492860210594af65d6b11a1612bcad, 0x569ed6ea4e6b290d5533b0f798c103b657422d20a3a92561e9239130e7ab46b3, 0x316ba651b7d06543095486c856971b17717b8456ed6239a9c8f30a8ab55c9284, 0x5f6198b048e6c83c7442d3eaf3416db6b6ec711d4969d2f765c314bc44fda3fc, 0x4fddc9e579f55b7a575b8480ecccabc0cff2b252d52d709cf2a5875b2a0296d8, 0x223f8f9fddf597b0c00023c710c525f52d49b4bc8658897d8f6868889681829e, 0x42526992e6163e25c9583f36ad90388e5aa4b2fa4cf5befa7ab658891dd12c1b, 0x4104a8d6836630c14bbfabb070179e1d0a20a5f88b609dd05f09576502a0037a, 0x44313f9b95337d501bb093d5fbca43f5e54844886f9045a9d05fcc1a0d42edd6, 0x2d38bf43ccab0def2442d53d7cc135123f03d70766738818ce0ff29be0e7224a, 0xd9d7a7eb8941178d7881e6adbd804714a3a3634568bb08c2ec404170061e8e5, 0x3ee1323f874a4138985c991d83bb2e7194d3e050d0125152fe4e67ed6ed82129, 0x35ca7187a5ed465151968b864b87ab4329631456c8b0496a301a47451e135ff1, 0x61ab66f7b1fd224cf90cdd7977c5f0d84f7b93ad42b5899447b83ce68d716c7, 0x1b27f7889e537fa1ea077b94f8840849741048c20a7c039c1b84be67607e73ec, 0x358ff4248bbeb1bf7addfe23acc89012ca8bcf538edaa3502adf558dff10de5e, 0x362dce3b99b73599ff2df0078d130eadb45ef0ee45fdf548d92a3d3a8d0d8ca4, 0x13132b24ede62e867c2af0985b7ad59990cc0e15c3b84583b4bfffc1dc18ca03, 0x60b8b0e33e8a8b9f99d9df625149718b977de7810ca7b10a0d81426985ab608d, 0x5e38c39ca3b1e3cc6f93594908e22dbd870fb188f15cfeb9ed10ef7941e2ad35, 0x5035f967f4d1d99f54a011adb4d3c936f2be70725c9a37a0c0b01e5f23b18be, 0x7fe46715955e9c86444e0044bad97a0ed0f0a998bd8d301c5b3479c70e56177, 0x5267a9343294c31ce05737eead65032b5dfff769f18e2f3ccd6a1086fea6050c, 0x6f09f93fe15609ef879130bbc5171c9402f2a916e80f88579381deae2b92521, 0x558181ecefe429f910cd2e3bdc4ace405557532f3850ac331b396de45d65d2df, 0x2f5d9b1ac0dc81932b873f0881d903354981af55dae89949b669d40412cbe540, 0x4eba5dc20da7ce48667a49ab62c5b12e65880725a9975c39ad4f44a0f2458aa8, 0x3ef73e210d8637a0bf91cce5e86aa1aa3a649fc023a26c3e605a703261ccd9a, 0xdf7641be6e7976163f921b4fe02add410638e4fb31c4e9c0425e666d01f8aa2, 0x2ec787ecdfa28d5d70290921b0f413bb7bc0151a82b154d5994d94fa23c15aa5, 0x108459891bc542af628c63898fa96891963b3b25983741c4fb6fefca4be0e161, 0x4ab90beaa3c80eda38722e0fb6299368db258fc546d3c4b2dd814167877535c0, 0x32cb7fb152fa15b64925591399001d36f6856c698326560e56461dc9ed7345d9, 0x3b8b25c9078566c456c43313f9f42d4988d75bc39cdf108e4287297b8e3191cd, 0x967747f1b83f5188e923077a721dc214915c38001ec4870b644e875ec438f93, 0x143ec0b905af5866f45f368698a7668ec05eff2f954b845d6583a3566939f394, 0x26c66ea7bacfbf2dba6be8cef71c51e97a88bfccad6fd2ac80e5b29275552714, 0x5771e5d266932423151e0ae83cdf4fc900cba36ff842b40f45bfb290a90e2fc2, 0x62dede43ecf05b9e5ed8af74ad90dd44002b3c02e8d245533aef631cee9a76f0, 0x1f4b5efe597484368734d8df07f48383f7da611ea6b450569290218ffe05ccbd, 0x1af5fa670f2439e32f7ff8c36d894a7cd9f7db246fb2e7c88754c5eb89342250, 0x542d548be0c25fb28c7126f5a2e38e303cee66dfa96edc38980ad9cec74a8b2b, 0x5090f1b364cc87c77c714b65bf2dec3c55fe42e48ef79a2984d90c29eacd5b7e, 0x46efb861165d2bba459d5d066865607d6a146698981f9b5322b049b905206fd3, 0x4d2c69d49788f469acda97d0efe7c20aa9852a5b33afc9ac53c9a9794236c27f, 0x5358400f8edece6915f0dbe08ec8b7417aed70b717baa606429464893ec4c15a, 0x13f595411906d7ed8bcdcdb06a38613ee694c8c00d5a0ca81658b2d345e9c925, 0x22f4c6de36813da5b3aedd4e218573f310e4b10bcab0ae6e6e1ef67112fcb8ed, 0x569d8c3ecad3434dd6ef808a3e11d1237782b33089e18e79d739fe4db11abfb0, 0x85320777f4cf2e4af4a5b6a70207570cebee54ff89633953afe14419a578586, 0x5b4b4ce44527bfaa71a15bf5e8af180060a09ef4cda12549c9935d6fc4716255, 0x653fb96c259f165c713e7637c9e589080b5a646906d836c2bcc69a83a880aa52, 0xd75538f092fa417c3e48a6d98d4be836ef293e643bc784bb951cb19c7cb0e20, 0x3e74f47ffccbc60518c6a32cdc4a8e7831a801d44b7ed02e540f1884de031881, 0x31131727b8eea14c6d97b67275d837a80fcb8bee69994e64c6b38454ad8b792, 0x5b570c18e7415b1d2888103204531fa4bdab3d526c8b513281dc039f2b3df626, 0x499539bdd63d241db9bd3f83612aecfd3e52e4e2e1465928e1c00df2b21b910a, 0x3247fc05694cfa9b03b6e97c17c29f399fd38a4b868ceec7a2b6ca41d122d7df, 0x5ce2bcd8196d8820cd8feb593dabc344d217643f1df1ad1442cdfddba2d4aa75, 0x3c8e9f68b178e1ed3d24cfc34a54adcc02d67f4f9bfb2099f57d8be76f837240, 0x2b1bd502fbeda8f773a7b78940486243936c013d080ac8b9078d67a2d5c9e983, 0x17726df08573f0484f81f09b94867c411ca49dbe38bc82c2631bff0f3bf91923, 0xa5c874a546675250ee1e98a14198256ed2fdb1bad22deb01dc77a91b2e746c3, 0x72b1d33b8f9fb09fc8b4c4a9753cbd3d3008d830170e15a7a070bd440b0b9ae6, 0x1c7f87b50aa9885b9abd0290fef1b1eb61001e614161a1f671e4574a9d353991, 0x349fd462f3008bb4bc68489f5b3e66091fc36bfcc6adc8706e7efb2d3242c82d, 0x58344d603da02b541ced49ba0a9b61809db614c82ee10c1a73ee0cb6fcb5c051, 0x3dac90bca676cd228a1d6f6c58820c65ace0f1669fa7fda276ec4ca7d529a1a, 0x26bdbdb20e11ad3623c2c973fa2989702d5c02d15dbcc96e30cedf04031090ed, 0x533a2e0b8770f1ed28c8401f69c6ff09f9848539b8b6332cc018dd4dc18eca30, 0x14bf9f3ba256e0df6e15e0110220d2648a33b4f7d726c16ef21387c00a8d447f, 0x45d7cb0ffabde1c8f5aafcb121ea657fee735e1ab1238efdb2baf480ce81c384, 0x66132bcc1c1c70463c24848dabe30cf5bd09ec7ec351bea66994ca3ce606688a, 0x2f9b41260358b6f29ca0d6c8128be9855559363651d7cc4a4de8e80512153527, 0x3913a34a38092af957e1333123c27c8eb59437becfd123c751518eb4f16c50d9, 0x5b47b189fcf05a8ac194b91fb0b293a936e8b1a7ee550a644908e02ce2bb710a, 0x2d3f7333f3c3be89743c9153a53481cd8efaa4199e7b45f58accd12cb4dd5c80, 0x6c9d7d7cf2e7cd616dc37f15368aa114f17a30fa820b44737c1a7efe9b75e829, 0x5c7067d269148187c1c2abb56829d34acd2887271a5758aae2130c6908e1eac9, 0x31050fa78379154ab0e02b53d914e482f04b0a20ed3e58e920ad820f01eb0ac7, 0x33bc176d170768cbf1034fab455e48475e1cd917c26dfe2bcf2214e03b89f89b, 0x12bac5325d8c5ee619363f877a7106da2d79f6a962b80583adee3943a185e5c9, 0x30ab1b551a507764227fe2e7a83b22305cee2a6cfc66741d510994fa2ea21baf, 0x186e58a6cf63ffcc408e27e6c8adb095b89691b813a4bf438db01cadcac4a5c0, 0x3ecb3ac1d43c5605ec14300b2cb20a69a521ed5a933053e8daa1751ed57c751d, 0x4a9de8e75ff8cb7cbab68cffefab1eb4c179a99be685e243b3b7eb758a15e243, 0x6debc0afcf8d4bab765e1a848f4670f68ddcdc3008382cdc0fd07abb9b0f44fa, 0xb5cc335607fe9f268d35ad3a3ea350aafb93487bb500fbbac34ef32deb28358, 0x640cce7f1f38d5b8f3e9d8a38a677c0beb38c89df84cdd6f015aa5199d63eca6, 0x3b1c2bc6342fb4748639ace550b021f0732a980e63c752bf1f4d6cf9fd2f43f9, 0x45c0b4c32e4ddb1da459dff11394d54b7fe81754e167647390a60c050a2c6eed, 0x2c822f98d14ff27ddff3da34256d10322e7fc292ce30bbe37cc8c25bc6e6921e, 0x9116856929d720b2959c10bd7b1e03db90487a1866724a9be8e2d21f3d4bbee, 0x1cae49b7ce9161fdc7cadd7dcc432e6fe06c77a5b034c2a6f41d7b04977150e1, 0x6c80d783ee6cd49adf4e38a5fd61fea8501cb86d7760df743e3528189ceb6bd, 0x3c3c2d1d9db03da8dd9dddadd8f1cef2ee7c87244308be1c9a6cd5e9a44dae90, 0x8864f08b3c32872acd9dd160f26746520ea9433cb4f40aded3ce9f0586327b9, 0x48ac8ae84f42acf2303b2132f9043c24e73f322d0bd5551403dbe7f0e3e0135d, 0x2bd56c56d23fd8a6597be0fdf336afef77d51f2f01694c9c8dc300df5ad89d5c, 0xf55f48d8878f491f0e11b853ce6c98ff238a1c186e9588888c705e7974d6d2c, 0x335622be60c979b078865ac3ebab1551a964c31c82dbeeb330eff93d6ca13cb9, 0x3f7b9d34b7c652ac54aa4f618f451ad148631784e4170fe2925d94df19c12bcd, 0x55ba6243b698d9631c9581bf9379c84f05573bb460a33cf2a3e4d79692c9a54b, 0x42ac603b06f8ded673a5be7da58e78b1ae50316cb50c50c71c89568e414c196d, 0x1d19cc602cd2aa9b8740f4a56d2a95832dc962b14e688e00cc4b369ff968d04f, 0x3cbc06324e1cf344526df9dc590dce5a2f12714eed9980c9fd976b1b1af6e1d9, 0x4ab55160d2204653f8088cd69cbe88e81f7eb657ea2e2f84f4e8ec7e3882f3f4, 0x5346e38c66b05e5d4fee339a7e7cbf495a337cb5bce9f9a9a92a509807ab2193, 0x3b8707cb831e094f18fb547c678a4dbab7cbaa693eaf71ade98db73ca35cf377, 0x5bf7f4b4fa10b6f4ac2e544bfda856903951c4b952a743d3d7439c42c9e7819, 0x41487bf2c40765fc94e29232c52ab2dae99d9a149f66b3043370a837f84e33f3, 0x6a1cb3e857bc5dcbbd9461fc25bc30167a070f0a1c3683c96c6732719c648f14, 0x5a235819f7446cd215337fd5223a09839385fa6f742fb13f7784832b4eb5205b, 0x14f2e7edcbe1ed8dbd7a6f3162f09b658075defba0b10337a14d7f327db95aa5, 0x1f8cf2ecfe9c8738123a2482739b0826d3785d751d7c116869181e72ddb37a09, 0x52a9ca25bff03bd32f68d0979ea2c42516943bc5a7f3efb9f6de572c57de3898, 0x2f8b9b0e8ae7b45ab3166d41baab996d23b93c5dae204f61a91245d41560aecd, 0x6c3fc0bda629866f88310a0f2ca17a6ca9eab63dc106f81f90eb93f87496ce8b, 0xc63b125fae7e00f8b17994a681036f0a2444a0ec234e8814b10e84c4642322d, 0x219de29f3f2e5a5aacd76de1bc93ed1bfaf0c8f4ac46d849b484df2cc1ec5f61, 0x8aace76b5de098f44c6cf88789b5e6c0f65797eda88a008e8c03770b7fcb93f, 0x158d8fb03bd942b5611fde1b3e499ea01d5f104838348febf245532158dc7d67, 0x6bd91edc2131bcc2049684bf46536175b3824db0701a9a6b88e16b6c79d3dab9, 0x17642f48aa1042c87b3c500b3f7b863ceabbb53ad2fc1d9a6e3ae187147b02af, 0x2894a15e2d4d7e22c0fec19f031de87bf17926f7f8fec17d481c21e611051759, 0x2ca067df144cba00c760a8de2a20cde41605de4a2f98c9652f3d0cd92bd122e9, 0x3dd7a85a45d3a48c04b2c308353bc44f87168fe3ef595ba898922170f414983d, 0x5718cfc5680748b58c594f0139b13a50f832a20e5f825fbfd29e8ec9bb7f8633, 0x25b61a76ddbecf9bbd7aa0d686d70cae1ebf3738817523c45fdfa886d0ed8c38, 0x8cc4079ff3f57feb2159b802901d94f90110f66505e88ac916335256a9fc774, 0x2812a067fe604e225e4fc111252380259be73e31a08fbca0316bf05089f09bb1, 0x668d33673ba219fb7f021770e7cfbb17cca98223a54f18b9e3f72914d13c4ccf, 0x5b1922ef03fd750492829a160623dfce1309856bfc7b2ffb86dd139bb3d0820e, 0xb41e5ec1545402f154c085ab3de1b73bcbbcfa5837bc9b666bae5c6d3a90e9d, 0x2483d3bafcb4033857de51634aadfbab02e009e084b472d7b8694bb53f9284f5, 0x241dc8490fdc60757283ca7b226aadb56110137f6083227667f148aa2bce36a5, 0x5f202a032a3b292f5698c83f0d4e8cde84cbdd1b1abe6b6938f061b40c7d6248, 0x602cfc32dda8360b531b775c869ddb5ba4120947dbca351a951b8dc9d5fb83fb, 0x25d3d86d7ccfee2357751568e681622292360fa5b50ef25b4a8408d79672a43, 0x7d0dd7e6c0295191b66675050d5b7655968757e23e4bbc07483d963737bd061, 0xafb87b9d6f55ceb0f48347c2728ae481268dfb90158307997e103d014d7c52c, 0x365782cfd4bff49a8a132e6b8cb102e84fb374aadb96d7b9bb174ea1fa1c78f2, 0x12491caf634c0cc4c09684b8cdd84b068e4b8ba2e0d378790d0199a5bd3dc316, 0x2b3e82f4cace1b87bb37798adb40ebfa6b26cd287b3411036cfd848b1a56dbba, 0x3265486c489f8ce275a5e6eea82ccf3f563372fba879e4e6299215ead365e84a, 0x577e2293054b14ef2d3e2f5e8911f774fdb0f6241abc83ffb8cca7c6b1c0f9c6, 0x9276f324921c7dbd7e6adc3f0aa7a6f9304ac3d22c4d068561beda5bddb891e, 0xa5c9e7abbaf849b5c1bd4f5dab072bad9c64ee62a954d7809de0f77a18a6a1f, 0x55a43837f724f044a692aaf8a489f97820e4b93120ca5a9e08b5765c5899c28, 0x4d0fdaa732858034defd733f05262899d8eeb76ef2a0feec498f7496b7c558ca, 0x5b2eac8858f3207de01cf70a0b95aa309d89896a2da61b43a036b607aeaed04, 0x5e00c081ac6c148d2d95c7e8fde89f4457ebc8e50f590e16736ac898490d1a4c, 0x9dfe1f61b2bdd65f6265736a3f7b368971d65546c7c4b73fce9499e325b1d64, 0x61ab98911037f562d36e76d7ffba52ebd543ef9c46c4e3676e296995674e2bc0, 0xa03fddfad2d38d76bc3f58c8f9802a39c284d37b0ca4c7022e2d316269f5db7, 0x2485f0f7b051285fd22e9c7351d92e701fbd394fdb63f4674f4c8b87a1d5a382, 0x77f46f191992378e7945538d097f28742a877e5ef6ca0bc97963dffc84e81b5, 0x532adf087b6bbe9ca939a76df8532f7dbdad5f0c9453b6a8f76992b519d3f431, 0x3778b4247fa42deb3e553f5c673d0e99fd799cb35899605324161b86586de2f2, 0x17226c10fc1e18412cf1905d629172c86fdeb2e1e76beee2395c757e989e2159, 0x12602f16cccd1440bf92b8c11f8ba0687eb947a2d510c91f1314f531d8d78124, 0x3365132f015c8487eeedb1e93a6d0e4553fa280343834aa793319e0660d92c65, 0x2a10e1fbba143a03a4d079ff36d3941c10833669e5756128d0d853e273b57aae, 0x435f151f729b2205ec57e0498139cccc3ce4639832bfcf7e35f5fe5483f7d7a3, 0x5529574f3451d62a6914fffb468e26f115b265a4833feb00541daa73177ec7a7, 0x6fdc9dc5e158ea9be4221e4028588714639ddc933adeb7157e2e0efa4814487b, 0x46317020e77738ba79d75d0e5ca0d8cb5db1ef807eb2f36d463632ebbd184f92, 0x3dd586f3d4e5967053f3fec1de9ffbe51e49fe90a3c0f681a71e1c5cde2e084a, 0x736e725906c4b477f4f36c1c2816bff0dd3df78d222a77ed21bbcc4f16e9c86e],
    M = [0x22c74bcc2615a595a8f7c0cf3616f401991f4acdb332b532e66666661999999a, 0x6963af62e003892a5d1d50074e93217934daf23145cff68aba2e8ba200000001, 0x6a44840c3b7b082cd99fb0b208d45b5a376dd6581553d4546aaaaaa9c0000001, 0x6217dc5a0f85429f8dce7bb808267bb5bd02ed3d9d88753a3b13b13a3b13b13c, 0x4a867dda0877876545809d29bd0c9d27fef9e96fa4913b23edb6db6d12492493, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x6963af62e003892a5d1d50074e93217934daf23145cff68aba2e8ba200000001, 0x6a44840c3b7b082cd99fb0b208d45b5a376dd6581553d4546aaaaaa9c0000001, 0x6217dc5a0f85429f8dce7bb808267bb5bd02ed3d9d88753a3b13b13a3b13b13c, 0x4a867dda0877876545809d29bd0c9d27fef9e96fa4913b23edb6db6d12492493, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0x6a44840c3b7b082cd99fb0b208d45b5a376dd6581553d4546aaaaaa9c0000001, 0x6217dc5a0f85429f8dce7bb808267bb5bd02ed3d9d88753a3b13b13a3b13b13c, 0x4a867dda0877876545809d29bd0c9d27fef9e96fa4913b23edb6db6d12492493, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6217dc5a0f85429f8dce7bb808267bb5bd02ed3d9d88753a3b13b13a3b13b13c, 0x4a867dda0877876545809d29bd0c9d27fef9e96fa4913b23edb6db6d12492493, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x4a867dda0877876545809d29bd0c9d27fef9e96fa4913b23edb6db6d12492493, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a]).* from "../poseidon"
}
