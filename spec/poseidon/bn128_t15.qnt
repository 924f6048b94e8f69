// generated by tools/gen_poseidon.py
module bn128_t15 {
  import poseidon(Q = 21888242871839275222246405745257275088548364400416034343698204186575808495617, T = 15, RP = 60, IDX = 0,
    C = [0x148d9e4542066b125da6d69ff3fb676ebd27e6a38a1ff4281bd639c97af6ffd5, 0xb60a28805324295fcaf51bb88d9692372cbf4eef1cba8b85cbc059346691a88, 0x2d38f812ad1d7ac79c32fdd57a56edb861885f20fa4bc6d0d942c2f41e8e4a7d, 0x25738acd1163580033367fd8f1ee199d7eb3c37891e06bc20e6b476a0357588b, 0x247f6967fca42689ae8e20b5a7a198d63086549b78c1620a51f5d36824ccf43d, 0x2e22813077a668b2b75249b8d515a3dcd93502006694245bb087ff0732708b93, 0x1523ea89be61be47e1c36b0e024068c28c48da74bf7069ab2d77389c83d474f4, 0x146695ce138230e087b53ef1bf81601f2591dd344a7cb509f138939369e0d1c3, 0x12d05d9571fa4b4171886d9c2cd44c7d7fc5a4125195e7d28c3c47cb5cb5b7c5, 0x242721147084d4613543788977111f3fde6c89326a556e35bccd2a2e73cac68b, 0xfd921ba8395a5dde833e6dba4173385007b38d1af5e3841a345c9a480c9d292, 0xf0bbdc7a39e5146929f2e1ca9fb4a63550cea8f12109c1d82e601975d581f5d, 0xd65008588b2ee1a4dee0313b6d4396952d901385f2e1afe6a0a0def765dc2, 0xaea567be31e1c42ce33f589d903363a482f21c1c3d8fe50fa6df018a2dc7c25, 0x2fa334757b03dec6be1df758ebe0353317b35316ecfc72934d069f182346bbd, 0x17322782b3733e379c8909ae7da94655c46dd2b6b061b9253d787a1eaa9b8f, 0x156816f48e3ef988ffe04cc77ac4c89af8fef8482604e7f93b75c1fb1164d60e, 0x2c8ff977a27352b5d7d9ec103fc8f0c727b84a778f41adf777c38e01800afdac, 0x2cc225cb5ee4ba2b7053f98af7b3b488569016ecf6f4943d64ba843092c59229, 0xd34d7a8b8f49abfa48c73b10f293aca19e09743a8345e9e1af9f2d63fead969, 0x2a0355ab04bedea61feae083561067edf1476b20725cf5e032db806d33edc204, 0x2dcaeb4653a0ccad1c0872f76b103bf4fa38f6d63119e1437c798203d29768c5, 0x22d2e63907fc0b6564850122c8e924a972de827d7491e92dd84397b2ebca7770, 0x1593a5b503df48305ffc360c4f49ceb02536c73d76b4f2f774f9da3d5b8dce03, 0x22d45f1203cc11e52b9155749a7c0a0a821da4b063cddc820580280e21026ebe, 0x28f01a0adb5f8f85236e1a129ffafb2cdf86aeb4056eb5ff5a06951d64c3d4b2, 0x1ba602ae9d3c4cbfadd0ae2ccf8fcce759f83cff29bf12b53d6050a7585e6aaa, 0x27bca061d815778ed8719c5f4f54063213c5005a46ed7aed0c979d2ad1557c33, 0x25593be458b75a5369a4bd6a86b70ae79876e95ab93705d244101d5df3e45700, 0x15608030e8bb2a8cec5f6e69489064cd21f9b3617034c9751c53056cc113c04b, 0x14ab657ef52773269b4002b7a2cc6d01ea66ec8eb51a97e0bde8ef9f593eaac1, 0x1af18589ae90058d0db1569f4d4ecf74154386cbb6fe90564311b4340b1a11da, 0x1f60106f88fadb4d8f97ce9ecc24d0910a4575c5a710002504b48faa28fb91cc, 0x66027b365d51255f99caab82d5009ae066db65ba103962f7c65f2f2daea562, 0x181301fa387e521e8951a3bf77c5942c5bbc4a8fcc6c395c34b4f491a9068ab3, 0x2dc04cb3a80a5239a13299eea70ba026593f40ccf49cb8ebd73da29a76413e3b, 0x2ba55e1d5cc09043027597e4fc546a18922baf85d6ab0ec6eff1cf13922b5592, 0x2d5b0f0163ae47693ce731568cd67c54b82f249f2a429e585f65400f0c7adde4, 0x374ac4769fa6fd0b8166fd62a112357902308a127645453d72f5249ca5c9368, 0xe767d617dbbe410968708f585dba04e995a8347ef23ea101fea088508403aac, 0x1fb38ef3ce50f158451e37bf5480ba70a91f8fcee93274ab021dfed70f2e2822, 0x14e239aa73b943e39c9b48abb205ccaa4ff59d68f9d325b717791666177db65b, 0x2712d94019540f5f0d61c11c2c16d3dfab0257385896be59c31ff97a37c6555b, 0xe6f524392452ebad40973a980e08f69abdeb214e5eb7830f7284c1d13e36036, 0x29470b692ab4a550523b448684e197e6be9bc885b9d3110c281575c1bbc67ca2, 0x23910827d0d4a41ee8b13a711ae19b5ac604401a221417172c3018a49de959fb, 0xbf5862f89a9d3687f2fb246980570d96ed258e8414aca7e0c9df7cee833dd85, 0x270d4863fd01f27b0558468bca95648bc8db3ca55aaa5feb27c286aeadb27b, 0x2dfabec7671e1e932b07f164ab49e69e63f173513f2d4a015ce8de3e168c1bc8, 0xbab26acbc48f8648d736366adaa29fde492480002f5020c6220fb187dae8891, 0x2bcdf080431544a4ed25c9db868837a2d17876fd7b3001bfcc22bcb686483bb1, 0x2064a7ebb7e6ade9cbcc596200eec97ca5e2f9beb2a26acc673b93a218f16ac7, 0x451e58617ec882799b2b33aad34bcaab6a871538c20782009b5da2a377b91aa, 0x2582f9576b56b22907c4bbfa7e4155b4e28ae03876964cd40adb0e255b6c1a14, 0x1af73515b661bd03915b5c3b5d8cec060b490d742c4f48d43ed907ac65ea6c89, 0xeeb619b01645cb31f1f5145d2d1aca045e69f9a89742cf85faa65a8f30781c4, 0x1b4ee6b9a81fbf0c201d0898a6948a0995ebcd080e0cea83ada3d8ed6182ab17, 0x5abe05399288af84efeb848ec61d53dd0f07439982e04e3a5a304166ac1730d, 0x2cc02c9ccd63f23dce9ec2b3587322da4a4cebf9cc9246c700db6612aa769674, 0xda64f9355bcc3ccf87a9696b344e5683cad3f876a5b9e5f715a0d70a973001f, 0x2d0b3f3a901f88ad88c2012c2b32f4eb9f02bbdaedf4cd1e37b84f4016feab7b, 0x1d566523ed67e71b5ff0cc5cd17a325d3092bd66a52773a537896e3c6df86c76, 0x37d35446e19eed662a2b628126b2850f7daa087974e21fad3d339d7e2dcc33e, 0x22b59547c33c37e6c300a3556f87dbba667bda84e1b8ef87430a522a576de9f0, 0x196f8d6f851f5bbcea6a1614656b38a30e5bcbff261cef19f6e34066acbdb74b, 0x576d6d6dc692d9ed7232005e63f954d2da11c77e6e919b2b9dcebaeda11b507, 0x9dcfd5fff0be2df5a5265856c22ac231cedd81a1312304f5896f0909cc3e6a5, 0x26f792286cdde888e454c1ddf03592d6d62f4be4843823526509829fcb496163, 0x299921dbb6a9201f8aca7e69d8190238d5e4a82dda743aed85ca235cab80c163, 0x2863a223856bdd42e35069d206a5088d217b5ffba6fba0939ca22858cd770dea, 0xffa5609d1b9aa848721d2e1e2ad6da05d43a241e8e0a7f59508ffa9b1ede432, 0x11d925274d8fae7d518dfecea58a9a57d88642062969e67e457e962e3ed4a144, 0x21c219204226bc43f0db2448349213a9e563e94d3fff28b2e692688d0f5b2b12, 0x2c04ae9f250ba0194bf59eca9404e3af6dcd64dd38e370a038f3fd1e397f5104, 0x223cca831dc760db7b954d41810614ba6e2c62be31e94884d4c7e5ffa67da5c6, 0x244b3894104e51a151a671ca11fcb342d1ac225f43abee839469743457133d81, 0x24f71d5a0ac04a387b758c69782449df7b9ccedb6163a7eedb21ef401452f450, 0x2efb360d9ca0e15f52aa4033f4c423e0fa5c175cdd05e4aebcc278a7b8296b97, 0x29ffd7ef3d018c95e8039c2e990e4cfe66ff093810ad4508c30e28e8bb970620, 0x267ff75a53212383ecccac4e8a3bf2fc9e982baf37ec44478601cfaa6f417233, 0x2fbfc4b2ce6c2b08cbb3e3749fb22ff3d68d3bb7d335ce0e42ec6dc27090c385, 0x262f93de20005c4de2f4a5d8d055c8d5f568991b0a862047e5ad94c8868ba3ca, 0xf080be27a791fcd1755754f931d9b87f5ad8c1963a02aa7cafdd1e8d31b94e3, 0x21a735213a8c784976e65ca3bec4acc4224527493cd1626d2346133ab8875ff0, 0x160a92fb6a607d5ee7949fcd5537c8431c449d79aa51bb955845d2cbe684bbfc, 0x79159f6364543eb643f0424461f00135739813840ac74de81df7c9e10c8f72, 0x2286247c58eaa4509baaf85b947e699501d3b5f901acc8475a7d9d7941606cd5, 0x1110425198ba06c42efbdb6e95840d01c00b5d08850f0cd46435cdba1bdccea6, 0xec5a15571950cec3c3193aca015791604b7dae185d7b9d8992e020185ffd909, 0x220f98335597493c2e7f4fe3bdc0cd229d0c81b2d0b6f9e565ccf65eba2877e3, 0x1c2fa2d176f4d7070fe45cfe6a8d4bbd0ce685aa196e4ba2372a5195e7ab644a, 0x298c1fe3f63531aa98b6aad02e438a8f278bcad4ed97f3c82a091faea910e50b, 0x2e814b2f088d90012bee74ceef10c7013033af128356dda488e3feab3bf25253, 0x212609944ec047925f31c13d7ca9fd43a4e54a33fb09a6ec9463cb63d2570e69, 0x157bbb9d0546f86e4a8b5e450036ab0a84d6109d5506c85f239267f4ba584b56, 0x138efcdb344b5b40faa9c0a415664bffd77240b5a9cba56b499da2e3cea6b3dc, 0xca50e08d27bea508f20273021f6e839cf124a54361def3c9b2a64595e58fe4f, 0xd34d2d5975a2da9f0dd72e846d797ab312022399e1fe70980f983f1587ef7c4, 0xdd1be4f3fb034d4669a81922fa014c3c1c5c575f39bd809877db2b9fff9744, 0x25540fcc162307e3906abae7ba258e4fa84ff4dd4ff19742a0969d08018b21bf, 0x24f57936979ae2a3b9752d37c017574493524a254a5bbc10213b7fa6b15ad35b, 0x2d9bd62647a45334db73631da9d97a27e8c627e911b83f1962dc3417dc6ce29, 0x1499c2994ad838770ee3a9af64362a10de6c4c5f32d5ab5bbae55ca0b29fbfba, 0x15a6459a08eed36bd3e23157dd59512bbc84847e37e8a4e3f7d7fdbc7be20970, 0x148d65a6a75fbefb33965be2df0989fe031f47478922d2546f1ee126de7f35fc, 0x16d2f4865c76d38379fb5ad2efb21e777e01744b4e209c095d332e41edb45748, 0xc86c69e94a003cc454e2990a7ad8167c3bbd4732e646f9f91e961114bc65c37, 0xb12227a310f8622c9acfe2bb3228aa05cee6105c4268c266dd4176ce7f8e21, 0x2daf91d225f915884e6cfdab42acb62d276341987bc3a2541819ec7774d90e8d, 0xbc4e8d555614bac1b8cc99bae7f008cb7c82b5cd1a3c481a553caf8ac373f6e, 0x2375f37d0030b894a1a8298dd2dd59e2b7e73667f31b156e86d9b38617500fad, 0x1e8e3c2bd0d4852e261a3c0fa93d83fb9c21d44b49578330dcb9718cbd54b285, 0x1e80ecca29b345ed88be8e53ca042d6c62afd2a4624cbacb3bd07c85839332b4, 0x2e1f5ee70338c50c456f43077216125fef314c6653c9ba72c75da5b53cfeda99, 0xe9ba31ae136fb0199f9d9e0d8580f5560449f2a8b6a9d0f223ec52c4120431e, 0x24de52f156b2208d81bf109c790f409baa941ab7978af86fbc0f891a5e904f75, 0x5bdc7205a26bf12700656425ebac48d1150e02fe9b4acb07a41609d7168f04d, 0x27f8106542d99a1f903582ad757076e18afce563367b63d5d0973d80993a3d8, 0x7caf2bc3785db7ad681bb6c05ddf24525c19d1519a981b44045a5f78cba52b6, 0x230b844661066c234483c7fdf632449922453ffb8ef379757509addd81cd773, 0x1c513a7ff8bdf940ef0d01e76fd4ec19086170e88c64294f737ef20b661982ac, 0xe0e97979ae864b55f27371e6c6e619ab7b887ce3d861fedd84ae111bea40e0c, 0x62d46adc59134784cdaf0c4dfb6c9d7358f315f0948765c8fcbc97ec3f38eb2, 0x2642cee234081127b28b4edb038497a79a2a313a1b749fd2eb67e37794283645, 0x2400b3982c92f7fc2181889a7087c0dc946db2b2e8d86d3450bc254f6518db37, 0x24da88b4f2c2dc7055f4a55f78322392d808c076f2de6cb6a03881f2354e9106, 0x1a3951cd6925316481484ac39b31b83627a5484c259c818ee23a2700c6ceac9f, 0x2ceca27fb996cdba6d6ee1e105fa5df8ba6b67b865931c017515fb42908de010, 0x16081d04bd65bc19e41adef6fd8da7814d2bb0cfdfb2ecce5df82a8bea879e6e, 0x4eed4b89c0ede1bd58851a931e4de791e4c69cf2b1116f8a36b2bc559000e46, 0x1d60021b4137b2077b31173787004201f20b0701411c48ab9e14418fe26ef4bb, 0x1636c29d85687fec3aa4125bb66e5d5f1556557a4860c1df85127790f09a61a1, 0x25c716e5ea5ce2c6a2b671a863d5acb3b2dd4963879f4c163da6a06fb265cc42, 0x1dece00284bc698ea2af97de3d426cf90110bb49be71a393c1ce70ea971db460, 0x292a18569aed3c28685001d40cb42dd8153fa99001cbd52729ca6f8e2c466eee, 0x26edaa0ab7f7eeac8776bff120b4483ce9a6bce85d099931ec9322ba1fbf3881, 0x5d23fd0743e0e37089588392c6df0b04d5aef2e5268ab19c2e9e9b3a3af4921, 0x300bbec302c9b8b7e4baa06990571fef5dad26af618d0779b69977a244c589f5, 0x269f2d9ce098eee89e694d53d3b2d9861490cf184ea09baf640f00a39ac72a3d, 0x1122a37fa0c37863431182bb8277bd0e849b2178a816d31c7604fc5219d1aa62, 0x14e2dbbeb30a3a577a0b2299ce9af0539d08eae0748a721880aacaafe1864538, 0x2f926c6773a8c411b87dc5198c309903d9f492af6f0a43a5af2028e549f6c801, 0x1169f110cff49700bb5fee9e524a49e35889c4689e384b927984e9957c587fe3, 0x3fec863f40327b066e68054c87d20cefa1eb13140520d43a679b9e4a147a61, 0x2e87640ceb4012a9ada31482c79a08f64bab2e2c010cb036bbac1e4a87c801bd, 0x3e07a8e8e86a863b1471947bd2e9629149b55502a6acdabf609edafa0bc9d98, 0x23397da20fe1dd05ff21ca3d213fc0ce7ce46c469537c1a2aaf52294d2fd6dae, 0x179733a75ce11afe8a4842f8509e49301f7428d63ca83973b8d8156fd82ab69a, 0x10c1e8a0ee811326b883ca8e10f3adb124428ffcc5c7dc79e83c7907b2a1eae9, 0x24df93681b43879a4bb61b5c6280f4d5e1360287945b978e59b183f0233387ab, 0x22140f342fecef8e27e3458443baa7dfcba7ac35cbd4a1a09ad87c7f63d7bb5c, 0x8baf85894900ec08322259d5175b370fd4ad33d5f599d609c95e2d15c26fbde, 0x24de9488081b84914effbe7d56004598675363e34b41fe0e9b78107930312e17, 0x1f25291093856f64a271dbd8614931b97c31f8ec8da7121b0bb82caa71f453c7, 0x11eabe4c7efe3aec592a5cec6b3f6dd1095f9d384ea0ce040262eac0f053c919, 0xb77db0420ec1e32b9ba0e9904a28921f236ded48f3f49aa2d761a631c25038b, 0x1689e35a0fde7b1d3a6e6d149380ffc6b7d9772807a553ab7c5073eb2e3ede1a, 0x162236b343c2c2f7f48b36f3e7a7ec97c07cccf22e3254dccc4b3a30f33c69b3, 0x248c951c9505d2cf2136f6b24c2b749c7751a01ab1cd83934be12fcbb8d05c86, 0x9487042f01494c2af046b94105b70b1b8e5ed1ac5f158408309a66a77a6abab, 0xa9a97076c5d53411c3e8fff6bb537029080b671324819fb8af33d96d432ace7, 0xc43d5fc0020292fd2ecd06842cfa8373eb9bef8a9d984348b43fa9614b32e23, 0x146d10ae53aaaf595cb8e8eb29ade3e56c92da9b55a3bc24becf2a2f5fab0393, 0x1bacba42d80c66b3b062cb5dda6a6230492d8685862447c638cc9b4ec374337c, 0x16ec168db0372a9144f511c5e860b07113a671b323952a86e8fd40722c7fc879, 0x113e5457aaddfe1a393d7625ad05bec40e9d44a7e185ea3af2b58ae695ab77b, 0x18ba814a2a7fdd1206db6a30f7b98f3c45cab593362befdcb0d2a896ac78a7f7, 0x106843bbc36e4064856eb6688d8f3a90a43ffa7f73bfe63072169bf520248328, 0xce790f54ac2d34a26ca17cdd642a31b1d4005c09752c6bc5b433064cee6322, 0x2b4e47ca6f897e337d6d52c1ff33a52487c689bab5fd35620d83c567b57a600a, 0x27219b83ad2459b2df9f73df5cd1d2f8be66512d95c4f3d81ba876740519db2d, 0x22cc096806612553e5047eb6e0ec8d01759b9df23c96f53b6fbcaa8a3616ba8f, 0x273e0a2a56e4243f2133bd90e54692647184a8805fdd2ceb541a220253a78b2f, 0xd449aeb41e8cc9b2f32856f89dbf1409d5605fc557c43c7cf573571d5aeea14, 0x1b07cfc60e61c162dc9f12de253b7f952a9246bd2c7c445ca35b8572e5d719a2, 0xe4eeb512c3cac847535897aed4fb9ed34bffd87c012a117f2a3daa810dfb1e6, 0x27021e720da0286b61c23b748cc7c358fb6882d8100787fbce685f06e11046cc, 0x2eac1fa2d1212624bc5e0090e25ac0e0160f2d7390c790a2de7740775830e542, 0xcc0645876817f8152ccd9010a6f262a516af0ca289330a340db6474ae66d261, 0x2ccf92d23a6abeee6e7924bf0d4a9e7040b715e662179a182fd11bb26fff58c4, 0x1b769ddc3111a9d38df31f4809f314d749b8be9fa642d2aaa36961dcde0be23c, 0x2dc09a5638b6194c6d6cb79c56ef205b0be1e7c83fcaef98b1cd1365295c7d2d, 0x7efca9ad6268754a03efb676e593a8c75a3ab84ad9046850654a5488312fd4e, 0x1bb73b4e345b0741548da2aa698783a8c87e923ab1b1008e72d737fbe7f6d9f2, 0x635173b7551fd4fe8306abd764a169bcce6f3719dd606cd0bc1f2b117fc36fe, 0x189dd3b20d3f8f53f0f5a2ad97f300f99ebb84090a438f7738f2a126ea8a450a, 0x265e8dd1fa619461952ccd1d3a96f2aa94906d9df07365c28dd3e93a244f6eea, 0x143a058fe3987aaf1ca1bf2c376b4979310ef54c29a3e668c124e5af437902c2, 0x186ec8f1c3ba70ad834c11cea7962750d76c7be8691e679bd195a65dfe698ec0, 0x2818eb031998c554c9570842180458d149316f14e29fe162600507b1e50952af, 0x8cf9b17dd2cabc22de68072b0f3bbde4beac5cb58b575219c70f93fe1ec5de5, 0xa298a9f044a1590bfb4a6835027c9481a406c765ed5c841878a5c14b1c4f4ed, 0x2f4050e4b3b15017c6c19d417790e22fa6d29269d33b54d801c4af98cf662ce9, 0x1f1e5035f72cba3a0226a0447fcd28c6bb211da5fde9229458c8f7d3974a06a9, 0x25763fbc942135da85faf354f47b3ae9fc27606ad701bfe7de3ee704d8160f9d, 0xeb6142bda2a5f26b49f6dedabdcb7a97f20931fc14256aa85e6a3b0599c8383, 0x1f8e3d89b5c97325a7063c703014144af195ec37cb8b09d544786eb6721e8ef4, 0x1a027583e2da7adffb3534095700dc6f7d6ff2a7a19b06d7d69d7eb63da4158c, 0x2823d3822190171f5924b4ffe5383050cb301fbacd745c2e074f89152a53470c, 0x17fce7a205f42f17c80a146aa3528e74a3cfc444a1289cf535407fef6cfa1e8d, 0x211b7a11f1d36c9c10a9b3e78ee5329ae87e7effbcce5968260b64ca4dcd06ed, 0x1861368bb98ea3229075f4ac8ceac511120ec3fce84eae632b03138a44b4bd5f, 0x111b4df9aad81b42dad504cf07cd2956cc4848e7ede8ce10075538f78cb7f758, 0x12df6e0847db8d01b389639603c878d91a19f446117f9a4aefca9038cc9d147d, 0x2d5e474114c7c6020bd7adb6e15337c4e72f6ef15324106e7585ca3f8c116c4f, 0x226e655808a4062f8bb47c131ce125bacfe68e7840f4ba6476841041c2808981, 0x1f01a9d98aad3d9a65a5373ed6d2b672030dc1ca9b46149bbf9f084a7d24f4e4, 0x2f3578cba83aac8a83f34aaf5c651b0571199e3a4de39ec0579e5ee33993fe03, 0x18391d423c454019402cf0ec7b36cc133247eb98b9bb439c9c189beaebfdd5ac, 0x26fcf6ca811edf267bd800e0b00f6b49e60e5a13ca944810a36632595d788181, 0x140f9b585984d931fe856bdf451805fca64adfe34d55ba4f4140480bd7a97acf, 0x11e878e17f1f867ade93e914e58024464385abf6403fd4a622e41fb1dc22e3dc, 0x1f997c6de664e9ceb042c55bd22c9232b858e40ff4efeb4082c76fbd62ddd8e2, 0x2773284b6eb1c47f14de71f232989ca9bd6a70aae1867ee095299f6419cee52a, 0x1066b87300af439cab83660521ee9d03b06a17c9a00b5b7a8d56bfc401fa5bdd, 0x2f1309644679307e98d620766a2861cee589e6d55dd970c8c43de7ad84d7d110, 0x2f1043b7f9e4b6ec39aa0764007e50320617d97a87be9dfb8f00b4cc27c5baeb, 0x1b3ac550bfdc6fcf4ef9839b66b3223badb9ecc76ae39fe95c9a47c2a1102cab, 0x70be30e43784dcf7d99e4334102a69c40c7981eeed360d5b9968e7cf19cfeb1, 0xe5529c5fd64e3920f611507fae99f8c877e9257fc367bf54dd073f091a3c651, 0x11d88f7b5649a4b0e1f788c89ef190ed917dbe39ca64cc58cde8633aa479b95e, 0x2f6cbff18a86d8b40f8973b1ce30bddacd2f248a1f47f1f66d3201fd46d93d17, 0x176823962788cb748e12ed59426bad8ee881381024993d5703c2c1079c0b7856, 0x77c3ac1150cda4394aae4e3951f8d0aebdb6fe9e8b336d899ed763745875ad7, 0x2355c7225b6025168045ab1f9cf7d6754e83365563e45a211aa997d1b85e8f33, 0x186f0b6b6d6040a7e140bf72b74a71b23c6ddc1e8496e2f733757ae000e90027, 0x14740840516b80d234f76a02dc3127f9a5ffab1b3f2346aa9c9b910058435ed2, 0x2203433be06680bf2ef05084f45cafb6d8e94158c6598ab1634f3ba66dd16e4a, 0x217d3e984355aa1f6df652f101bbdc281c69b7c75164a13fd29776b80b2a9314, 0x1777f06ba3ebc47efa43959fa089bbe8bace64f9a4406937600c273dbe21e4d1, 0x1fd8a54df4e6ed46ab5d2997b9fab040e8b4870f5754364850c508a9e573e767, 0x11d54b8c949efcb99816328db7aeee0a412c7d074a986a0603eaaf5acfe32a1d, 0x2cc41e52d8f986ee77c59b1de2690ae4e478eff25d4f103b15cc05ca7ab7446d, 0x47c5febf774c62215aa7e6cc3439898f576041f19ab3c8500b07d5c19a76fa2, 0x2e9870ed58dfa57d100819116368bbfba81c69a4903a85179cf7a4c2a8f31445, 0x1fadd3bd3a5c6158a4ff3f0aea374f9635f5211730c79b39d039f9ce17ac8945, 0x2a5c810d6c43ab2d29ff1c5aa46e4d982c1b6527b6a2e83ec55cd0cc4d45d1c8, 0x11fafe98343013c2fd3b4364e1e5922db5be5c0f7afdd7b8645d07b4c91d410d, 0x1d1a82a8b25d503eb4ae65d6bf5113049342c0c10e2f3cb8da9536c95b1211cb, 0x12ff18aee2ba37f448e89dcb5071355637d5d15545cf9cf8e60baaf2cb832793, 0x11737e654c3374ae5f4eb5c74f203d1da2aa812bb60b0c5cacb5f01c0b0f63e5, 0x1af3faf8b2da944010c5e3b35355ab593d59faae404165a07ce92ee11356d2b1, 0x5ca179ad0da359d92252ff3324e884af25b0edf9bd1700e012f45b683bc2df0, 0x1d6a598851b1ecbb9d3ac470d95ecbd588a3b32303a4cd8a7680ef5df2b95f5d, 0x161720dcea14aad7e0710a67151921bb9d5c40bac136674f862c1c43899d954, 0x23385cd49db575f73550759f679df48cbd1ed1d69932700179df6fd61870e497, 0x1339217149da74d50b25a43cc8027420e272fc136725702f81da8835d0b9f410, 0x2651659ad69b37a47aec09be71481bce3cab23dc04c316118d407005501b0c0a, 0x2873755e5d79969854cccaa36cd8466aaa2e0594e3ba37b8f51bb3a6c9b87d0, 0xbf86eca4c048d59ff3ffd610c81a7f99875ce0ff1e193415fbc2bcc4355418e, 0x127237aa090a414f2676bc5b26776a420d7da6ef914a89dfb2ea434b6db42c54, 0xaaf012593fc014cab8879be8b63e24ea829b780fe9cd91b68892705102dae09, 0x2349511bcf3e14b5acbc973e40063d20c1a42fbe9e5dee99964dfd50869d0286, 0xa13877e82fd54bf79457e703a3c5780eab1970a9b374df6988129c32e2efb81, 0x2f13444c0246613e4a8f06c54b773a553b6ef94af65d3437c04e3f6856ee6e7e, 0x149f9f85afa120aaa5db38e1394f536cc1530ffb639e292afb3136fb051171e4, 0x9af1ec78d4eaa552f14fa6e7ed41842a411c8bd2b49c9721dcd6de80e1649b9, 0x1598306c66b69a223a169259386217b9c543bb63b226c2837c835070fa6ee724, 0x52d00ac603ae26edfd7d8945afee2021a7f8cd3719982f463be765d26be97ca, 0x2d0b5bfcddbe9aeb4286aca9d10f9a783176bf8b9dde55008e232b9e8f45b541, 0x22e76d617bc69278c3976145fbec8a11ded70e6bb9b14739d59d7745fbe80133, 0x10e0725e62e660dc5a675e2da60c8f1ce756c162a10b53cda098bb147dafc138, 0x152e5879db732ef026d2748d6b17c21005a23125ecc01ace4b2ad46744b6918f, 0x2c0564cd2043a507901b5054db2e6eda28c94536013ce66ea5767ae453c09d51, 0xa61fdb8748245fbbf026fe3cd6a42b873819c83905c42a5d7a01b3ce30a6233, 0xd86b389e663dafebc5eeb72014ee4ffd205841fbbe43dcb55a0701b42c21e70, 0x2b0ea06ea29b5ebf5946ff05dfa56da1db9f91187ae6789a51283286b7242b5b, 0x2c9d3d65591a9ed07618ddf4f10770596a3fcf25ddf472126c8cb0b3f8975675, 0x5eaea9663cd319d7b6390fd37a5b916d0adcbdea0ef60de5bea3db63e973374, 0x1ceb088dc8e476eee2220df5e89c9943d28f9af36adb2dbad1741f19d064109c, 0x1f88c713fa7f9eae2ba80f2acbee56aac81a2454add66b1e70bee1e533bde95f, 0x5fc10c9b3aba423786210a189a8cbf0639448d239088926ab96346cc543f75d, 0x97f99277a3d8fd2d954de6c2d58e33f65208a53bc36d1383c2d17797b49b520, 0x295508a069661a782227ba2a74c212d4728fb8e8695f1b4826f87408ac4d087a, 0x760bd5d3082701fd9e7d17d530a457d41a7be55ce6b608ae2363c3c45db4576, 0xf6c413f51067fb324da04b213fa890fb953332e863df3b06fbfe3d5de732673, 0x1b0a842b23f5f0059a02f26579d95260931b64385be42555370270cb462eb55e, 0x898e5f4d62bb5913fe5fd2e3b75440887d1156f415aee18cd67fc9d728134e2, 0x10f8852656055f6352276424a54ec899fc6e6d87a4299ed0ccb90011cacb1198, 0x15b12eadb1003ae6382b3d338854a5002c15c03d9bb02842e03fbb75da769cc1, 0x58d7f1ccddf26fdfa6ee0afd3409ec103b91f4992518300ac2a7bbf82583fa, 0x24acf431e67a9d7f1bed441756b03a777a99fa7280b11def1061cdeb2878bb8b, 0x1a8e72e3b76468c434bba4f191e90170a642ce7ebbd289087d187c305f13a4cf, 0x155a981f161c8c3c756fe204ff2a25ce0f5346957d69fadc6855c6107e02a8d4, 0x1c747b94dba58c3970414851318a6fdf4c86a5f65e4d91e8d4772f567b49a883, 0x259f9119fafcff3c0a98d828daa5d1ac21288c6ebc8e16f4e8a85dfcff442f95, 0x1c5cd1b340400e37a37de09bb20753d4979322e23fdac9c7aff9f8209eea135d, 0x28972ec819ac03e65b0b00c52ebeac03b5ef78281fe543bb3f4e762e7904c6f6, 0x277e2dda293014c5c76662826dd3d76cc7c662d28b2905bbb1ef3a3f5081dcaa, 0x76e05aee9f8c749d1a98b3402f4a2c87be2840659a5182e15ca87f31809c84e, 0x26b2291c31dcdcc2eb55f004c1eab496490d025f12265be835f783a9613adf14, 0x1ecac53aeeb7e2ca436a200daaf1e975be8ac687a8102be23a7f291d9244841f, 0x11766003bdff5ecf352014501776d0a2eee1f7a8898409b21abf35a7092f4610, 0xbecad60e8eab107933f92495ec6e5070b26149eae6bb1005197556225239f94, 0x8cfbc5e1f5efff8fb1736bf118cfdf0fbd81cbe87ea61931dcf0cc70b1c488a, 0x15f63076b20a19f545ea7f9d386c63efae619defd90cfd8347e3e7eeda6b2d6a, 0xa989c86ca97f9467240d9239a51aeba8c7772a4b68b37f97f4fba26958bbe1a, 0xb6667027c41530cfc1cf7c6b60bf74fd15a1186ffc0b77f0976d5e1d4501a95, 0xa87dd205830beedd3f8bf92235ce278e2c8529eb9f1a44530ce1b2626c49c01, 0x24a833d8f5db7cf49e889fe23c518510a895801f7f287538538ba3b0828f8101, 0x2a0116295e2074c23e1bd817842586d115cfa7103dd98245e6d364ca9d5642c5, 0x182724024bd1b487a7a886604e4312f25df11bb2963ea152649cedb6ffcf43d8, 0x2ec4fd171e0927dc9331540e1f6639e1541eb4e0cb74c66cded95ba05e718b8c, 0x2bec29f75e13ae7002213bbd81ba9848501d613894596e9fa35d734ffe9ad50d, 0xca8fe863fb236c10ae74ec094a89ff974b5d9cc498546f76c0bf1a510a8f984, 0x157e6adc39e984ff60e904ffd85d4b06c0f7c95d8b224eabb0e1090c080a3204, 0x1337e6b950018ae96f46214425210907e7578aeaa0f62fe3afb9877ee3101782, 0x267f0ac325930461def6afc4f54b6d09e163e84c00a41407938d2d263fd649bb, 0x1c049001366a3521dbfdfce92c324ad021d035767911574fbd4b4e9000ae9a4e, 0x167db26d1f93d91141c48b1a7ecf78ab3f714481594f3eb1dab4a4b78329706f, 0x159fa23e2aa81b787d70facf416079b68de6b8d7c0e234421fc450c2f1917256, 0x29adaf20cf59c0820209a749c61a36b84eb168287f7ac640a37df4a569c3defa, 0x3c390694ba7ab4800b93121bb53a36d654dcea8ff9bda64c95770fa545dad59, 0x91f94292f6b5252572bb419ec455d5435eab1473eebd72d8b20ae3fde0146c2, 0x29d64d0356b6cd07cabc18eb5de28728c246663c60133dd989e89af97f5dc212, 0x304897aa5036b3a80774e409994f5d1e71a7836f577839d3b92d938590888697, 0x125e0dd8f249486f133b8bcb9179c5525929cac3ab09bbaefd97a751bcb87e83, 0x2fef69cb9e21aa57adc0749d32310ebbc3921d75f8b5c79978a5e83d66888e6e, 0x1e3af408be8cfe4bbe03849a711fcad85b4f27977733524f2bd35b7166438687, 0x4e655df6114648220f3a2a056805a636307b809779e9397953dbfd8b9477b54, 0x2a43229e666093be6184e292b4a87d605cd3860037fa2aef07486d4f856dca8c, 0x156f9aec7359e5427d5f97a165cab447d27089dce49f1401e96c37e159490cd1, 0x212458241e29a83d0d11c64fdb0d2c5e7036f441e5394a625f52c1100f8daea5, 0x1dd909f5a32a657a89eaf948a11f8eea874eeccf49632b310314d77ed72c6257, 0x19d8a81f4867c40cd292344df8d2dd64b07fead4054107414a45bb504bbe60e0, 0x1f285a438fc7ca62edbdbfa5f9ae627fd1a6b68d4bbbd7ab867c34db73c628d2, 0x6edd2c97cb8ef5db711360743458dde6d45de0fb41c646a72afe0e02033a9dd, 0x2f3771f984d334c7298973e9b2cfaa1ad5989cf379bc41f78b964073955b978f, 0x2abbc43b9224188495cd9ec8479f39d763b8d560df4e9dea1cd7b1618fcec9be, 0x25178f08389153aa236e1da3c3bba5e408d52ba913c3718128a596fc40755a54, 0x1b28045d36ce94ca72ad5539c54d6a9a872e66fe6206a251a61df5afd50e3e93, 0x11c1664633f12fd93a35d8553fb8e1ebf3ebab73614642da48f742483c0d8148, 0x19307c6980c6adb7fe1d4539c10d6157310af45ceaa4618c0d4a67f71a4a8c31, 0x14fae46d00733e5f7e8ebfb360853311f021e2a252705453cac23dfcd72b72ef, 0xe3d1455e479d3b99bcb1f8b662a43c885a9911b238e08fc4fa6bd1090369492, 0xf3e285e855de079c2f3c562b5074d095b57268b0ab1aa07c4f7650254087d7f, 0x24ad5850b4f923abd687dbc4afe75ba26039f7d4b33cc43bb55f600be5fd2ebd, 0xa22143eb18217e19455e023bd571d1e757ccc89850504f580e433cb40afdda7, 0xb968c0b278f32e9ee1b4adff37aba3d15d5943a77ac7783353397b72c70d533, 0x276990e5dc0db030b8d88a5828a4b343177dcd554fce8a36692f74ff38f64c68, 0x1f180aceaa766f24b92552242448a01326580a9c2dbe2ae3ffbb530f23ba1717, 0x2dddf4a14757b28de03cfe210be338cfe3b63f8a02d7fb0155ac9c6e3e2b6bd0, 0x1481841108e80996b079e3e977578443ce0ea8899d558dd92c5cf20279795ddc, 0x2a3a6a173401ca83d33b0997eaa2805bf7869cc7deba404f395ee14e06daa3e2, 0x11d7372db5b796363296c6b99040d883ad66f54862b4965f5da0ee0227bbc456, 0x33e757e99e3f1ca826c9a648a73de374a11c2838024cf736dd31c5b5f7c0825, 0xe1bae5e746ded510eaa1145574a8468c3a7e2691a7b324a9b9efb36a9cdd4ad, 0x21818b1fbab0cba1ef20245ed99451ca1dcca899222c147b431553016a09dc41, 0x1a2604c6579eb3b1e803427249ecf1742a9bd72a6ad9ac3845191f8c536f7d91, 0x2f41b5d5d349e955e15f50ba0cc3d3e854e9065f8d62461332ccd746bcb57865, 0x394fff2c025027635cf4a7cb7588a6ef587ed994314e9f813b7ab99f8d4c32a, 0xa9d0ebdd8cdc392ba446d6dcd5c9380dff2975f275e30f636dc9641b2a2362a, 0x255498cbe7c9e89580548f0d92255fe9a1775569c380abd18d22004807b68874, 0x29dfb1a35fe5c7f25490b6e2e303d711887051c092a8e642c07dc130ad3901b2, 0x25a5995a98ef0f5402b25b2031698447ff89a9b630094d71aaedf8b5fc4ccdfd, 0x38ff605feedf7a740e890862fd593fb712aa19b4721d0d97b0a85ea77f2b621, 0x1aa20d730f53b035813f1504a853ec87f89bb56b05fb7b34f21deb1aad4c18c1, 0x1124f2b33e05c415a7d9881d948b9e15f5891c816a0495e8e62e89089a29673f, 0x51d3aef244ed3af1880d68658b4fa452aa3f8ab79eb4d1de2a1b827fb5ea359, 0x18c3911d3e25dbd901a7377327c5622522a29f56fcb2d395c4c9ac1e05409d3a, 0x9e0a4773ed5abf26e474c8050e9578c5398abfc42d2ae66a72c3957622de157, 0x2de436c8a217f32be5d1451bfbff7e3f6b3ad46a2da58f8439908d285c9afe55, 0x269ad28cb1fac223861da664acdf330c1732e75ce9d1a80071d8f623e668758f, 0x18d5c9f0a8c3c1c62a31a12d945ac562e7f28e951145d700751b59f5c4e046dd, 0x1eec169ea79a149b6a4c5b3ace894f421779dc9e9bb366e8ecdef2eb3c53fd39, 0x982ce518d3d2e3749dabe6b57758fef9eb663a996dbbd91aec0ed84eaa75ede, 0x272007ee9d7ec7efb6c80f25a2110f94d20ac436f7c50c1e2b7f6bdcc76909f3, 0x1072d3d540d1b00dfc923dcae102f2b6ce363e5054b3dfe2bece4f96cd15d647, 0x28bb8d7194d4123767738d6b4d73a05a94c8e93c7e08f808c3a4bdf564420120, 0x4baa18db3db501d39e42c49f1cce30dd5619e1ebd14266857e38a753c63dde6, 0x130c77637bdf1a336d9b4c83104ed1e7b81808142a0bf1b2771b530eed99f03f, 0x2c0ce56da12cff29effbc3dc9b05bd07d7ad42764ff28350c7c48ce48ad4af9, 0x23eac7695fea23aa2f2ec9e1ea7b62caf5e71ed61066009bf93a6ef3f74056a4, 0x1c79be403821f680faf8289807244a6b3c04d0716134d089add44dbb97da7172, 0x5a48abc281f771ec36dca6268f591ebbade05b23fb81e7961c8cdff5d5c8255, 0x22aefc1e9a4d06cc764e9498634bda97bf11eedd5850100a6dbc858619d26bc, 0x100fb400e2aaeca68ccbdd4cb0528dd3b8da8207d6bce2d41b4aecc1f0720581, 0x4f0b1d5fbf7c9467e826c385424b91faff7e5f6b59e37651dc4bca500327cc5, 0x6e33a10b9bafa04f20f3e596c0c1d986836b7c16a56ca48669d5a0514270160, 0x81bf056335b1c44c461c4d6fc1f9e032a18b9d2f7f2400724db06385bdf0774, 0x6ca03a97a5618ac671d4d2c18501e5e8588bd793b2c3b54dc154d1f40bf6271, 0x114bdbd88798dad58dcbdb9a1fbdc123ed1b56490a015b7c2943eb5aad9ed1dd, 0x21bd28fd49cb1151be1afac1cbed0b705b76058784ab92fcb3a2258291780489, 0x25516e358045290d7bcce1b4636ca33095142d4b01f22ef7d94e28cf81e9e29d, 0x21dee602b25e5a67889ef243ac9c891b73ebc717c7d8161995d74bf4e5bec07d, 0x205992101ef7c5c3493aebf5fb8eb7acd01319524ddb56fb75dc159a013e9c88, 0x667cf69b46dcfae72f7fe6b5d81e6d1191ef029280803eec032f5ffaeb12019, 0x2b7a9027fa05243ffbaa486daacaef850c4d033b84b3641db98fde01315e5be6, 0x2c7aed13aa9064e06c4dd9299479fd2fbf56f73edfde4a117cb8db54dc76e134, 0x19f76d0c1f5b1efc61c645180c5441b569a90ad7110f51271046c642f78ee4a6, 0x4749d2cc3d3c5612d7586ef1214de38f848d8b3d9afa266e153eda3920e72c2, 0x2858e042dbd512d9ec147fcd5cc0ff21570bb5e8da3b20f7f69acbd28785610d, 0x17a5cf2508f786d73497fbb01f1a02dd8beded89a2a3c2170ba1f3b2eb31c964, 0x8c7b3263cfdabea784d21a2d888b7b10d6c95a282a10169c85f22a22bb78e66, 0x1604f8490be24e6adbc37db5d23f82bd706546d4e78c08e39c1580b7c04d46fe, 0x4d2e4db13adad49bbf930ad243167c77297abe1bd73b5d148529efd75ebee00, 0x249361888bdec58dac53f9c01752c5f6ed7bd97fc27b3fd41e0cb90b9b2937c6, 0x1ff257f8b90fc3cc3f483b9623ca26519e4e04ae6dd38ef24275258a7f1494, 0x27e9c91e30b6b5e3c3097ea19fe5341727a2bd8dcbaff38d057313169e3fbec1, 0x22154015dff9dfa94f7a8339f4ff118a8f8176dfab2c88468b2cac7e3914cfd, 0x3a08472944a4c84ee7fe76ac61ba12ad1b5ecea7d14d4dedc8b2f7a878e2afa, 0x227066b89350a8b139e5bf8b14660caba369b0828b4caba58600f80cace84ab7, 0x188541fa12da77e21d041035190e0af32728193188f77229d79a08cde35e11fa, 0x25dd5c1efd162352f25ab776985b0fffc05deb7094bb6d2879d925cba328cfbf, 0x129f292e9cfc7cdb1b2ae2c7c30c3bb491349cef4f7d65812d66095ae9ea2aa6, 0x206a809eda7d396d034e89813719a58caae380eb9f221f445b67cd5a7514dd44, 0x2e7f566a18c5c428b55b4b7d4bdaec63f721b59c4a307a7a740458dcd9d05d9a, 0x1c0df0b100e4e728a9e7aa34f6b0db0da6b8fc99c3d377f1560aa156b7f2626a, 0xb875a366710c0691872b26d9a98a498e929acc2e677868c4ccff663395cfb72, 0x214168e91d3b6a94d48476b1b424f16240bfc8fff6742494cc897103ba7d2459, 0x1bab48ade466bf636813634624daf73b6c5d6614340542895795c49716351e9, 0xc8425e1b2470ca424397cfa66665fb861a3af4ed66db9045fbb6a7f761479d6, 0x870e13994fe31f94b82cb4923e820a13c37d711d56dcc718f4b15a03d627d72, 0x14ebbcfca7be17a5efc356904a319f4969b4d4136f1026f57400cd7db424d778, 0x22dd5ea69a5036fd0d4f63153af386feb23bcbd02112d0b7574a6315b4dd5fd1, 0x1e72a099e89eb37443e42de1ff7def1549480852600cf4552fb17466abd89ec5, 0x18fe65ff0f8901603ceaea4a7462fbceb80df62602a9c132264c5aa49de0cfb, 0x1b649fe60a17792252a77ec365ef832fd3722505ee40b08999c728d5c6db2a62, 0x18a42f27632071b87526d95dcb7de26362aa28abea426c73cf679450bca959ea, 0x22ab7ea700db2b287b301d010124c1d2af58f76434b8bc47c59aa88620add840, 0x26dada935deef8551a9bdd474985592e2a6e9ea3522c07afc4bf39577211011e, 0xc6f417f88a5fe08839f2e8b9007e2360e1d618e1b46a4979cba59d29b719644, 0x24788ff3b08c4d0fb0b51b9b4358fc0cbd31ca31ba05515855a33a282e2de1e0, 0x1db3fcae24ab59721eff9aca5d5d41ee9d7831a79a45ad3ed385b1322a7b2785, 0x1f45fd57e811d4e574516575d86501ce6be9246f5891ddef62b7ccf835bfdca1, 0x11acec0b13d058dc6c7239eba9034aa33702da17de75d6306f282a1b2bd16892, 0x21acdb05d55ae1f4aad873ec5adb6b6078170063a70cd2e6319ea0cef833cf29, 0x110d9b94d49799b659e142699e767d9564ce45179b522648fa8a83b45f8d76d3, 0x18db2b58b40741f2e007f70118e3a1a1bc2150e04fa34e421db5068de19e3f24, 0x14768c6934126d0ebfbdef341b57ed229076d70348eecdad8647b1d0df7191e, 0x1704d2d2e1876a075b167a65f6cc26d8837f7e2d3f7628aa26d3f7696962c237, 0x2cb8147670f73e2ff79ad1912c835d3d3f2b2381f60eb37444a6c0c173b537e7, 0x908b9e220885b417b58db1da0ca974c2d657b50ae1c3c5e114112a925a7159d, 0xf0d85b4586161eb7e1353fbeb7ab3e31b5b62e720379efe3f6549079ac3e60e, 0x2103faf663c3549c9bd073de214585c1aedbd5023e4a5ae61996f5e22b0a4a65, 0x127ca0c64d361063a6c7da37c6c3c2080181b6dea5fb63469156f2fa486e7ffa, 0xc3e9dd099f9ca600ede039ada789f28795ef7fc650e845402fc15f99d48c00b, 0xea05b5d4d88b9b5fe35406f17ca1bb4a855e0a6ee7d60b31e36a2a21f411fce, 0x963c4be071c32fd06a52124c0d87aefe595c1db2b2e6c2c9cef53456bba30b4, 0xaff89c1e81410468fa51e7776f23a077f27446bd98cc72189f641b6456eccea, 0x15e753027d63337a330c260000082ea07548a724dcafa255e67b7745574624a2, 0x1f7acb7ff46a7c623381155c6829374bb77587abd1f9fa6b879df3240954ad75, 0xc62a3de0bb681107c4dc6d9e623d0562cb6784f2403693fdd64622203b16864, 0x16ce582016cf2e1838db97dcbece873f49f8c60722d756c551af3ad3b1a933bc, 0x29cd5e2fd2b684e47c078fd56f852b1ddbb07ebcf995be991e9c2259539fa032, 0x12e8ff93cd5c3d7e0455d9eb0e7e9ff940575c41c35d1e5e441e530ea888a908, 0xf3c400867219d40e6abf2ef22a90901811ec95c61906c730cbe777761ce12f8, 0x2a61f96bc53c2328ddc85e45096c9532c012f4713b8b8c8b1fe1227f8fd760c0, 0x1ca94ab706e569a4fc1bd36c9b63457d5d7235b356be56bdfaef24f99378b467, 0x2bd4a2387e6ec124155de47009789e1b945ada3adac5e35107398bd569524090, 0x454150ba34548a851b191fb1a9f3587464de17acfdb0ddeb715a2e64373174, 0x1f22b39bedd115a950f7d784c7031ca0ec3d1a6a67375d7b6ede480c5ca145ff, 0x79a66156cfb99cc17c6d39fc9c2219bb89247b6caf93658d59c6fd0a1d1bb06, 0x17ee6df0822371834c222f954f03b016b8d5ad4db1be66f3f946d5d028e65176, 0x24cde14169b4a758c3a126ab3f8f18077fbdfee0f03fa7bccf999919dd417804, 0x20ad08d3558c9efe03c8895ad4dc88bf8ab5ed4867e1acde6533ea2f86d9fa7e, 0x1d0e87e604d01091898d6e85d2ab9af9bae03ab511a34cd9a620f088fdf8f1e0, 0x310a319952f3f6e25015abcce49fa8110ba383c048413c899ac4d202c36b804, 0x1570b11e64614fd49047279c454078eaa9cfb883a9434a064f763421b26b2709, 0x7a6850ab997ba45837a422c1c0466e6cdaf76fac2199f13f63986b2a19cf2d7, 0x2c25344043642c634a4c011d981aaa7e5f179ce9ea4e921e8d52d0e57169ce2, 0x9f74e8a85c293ee8a2e71f6d23495bcd9de56c2e0034169034eee85596f5a7a, 0x79336363220c753590ab21e164aba518966a7480c4b2890f45272368ab2a97c, 0x1ff046afacd14fba346ce72edf23e540d10842ad7ee3c733467779518a9a70d9, 0x11d64cc17c095e49c45eb1ca2bad482a820326003d49c8cf9e9c02ecb7acb4b7, 0x2ed20c0b8e33f57ded5581cf937a4055f680b7d72d65c554c014568087d5772d, 0x259cbd244ea8c9840becd72df29e96fd89b6c39c7be72b16be9f0e43b73eef6e, 0x1e7d2f21917295fc375854225e63ad503e27e8d6c9225db35c2ba375cf4f8fc6, 0x257e31a7b6add90c617b93325bad37127f0732dfac4d0ad93331fa7999212a5a, 0x1dad54fad4273e93971deff7dc3fe74abef1cf6c302a64403fc7683966975019, 0x296a02967a5513e1827e29c77285be64682ab142d13c6d2b7eb58c0920dfd0d8, 0x3012ff61f630a0352b741e63d628ddbed474ae6993acdc0f9e314e8eca590f9d, 0xfcb8fa2167ebb6b4f422131a8ed841306b3a0840f258d68edb477e8e1ebfa2a, 0x135767e5d3112e0777607c1c5b91b1148ba641dcea07e1c2355c260285ba1cc, 0x91943098fd0c94aafeabf4dbc494b6385e39969c06c0a6854de0c7e688c4d77, 0x13010607d24e7a178c43d9bd68212157776321d95438d572a3b6ef77141e11b8, 0x16799d69231b9802789adf9d22468442767461b49d594e9a950dd8d5ca49e7d3, 0x1eb07b70401fe93b81df97a1f4599947a6a812e34498bf2abbeb1d256a28edc7, 0x5cdd9a797bcf1def23e8ca120b900a7626b357ef869644f28afe0c053f3eef, 0x24b20d885cd9a6318269aaea97b2469c2b60f7ea371c6a9c223eeedaecba49e4, 0x2986b0ba3a3e232129e3c444e9482584fd83d6d6a7d9bf43120a4c56ee5db03b, 0x1a188537b78ce9f663d64b5755da53cf88ecaee852442767fc16025ff7a66780, 0x8619134749841915bf5f92cc2045ebfb124506b9b25255be814a3b28fbe118d, 0x135cf6c3cd0c694581fc2e477d6538a7b233f89d226373622781b029340f0c6, 0x4f9a5254dff765ca0403efaa2acd9096b7f59fbc20039138660b892c808068a, 0x29bcdd6c672f0a1870708d37e85130225c5fc826e9e62146313fbe1ee2c74d1f, 0xc1d777f8eed911d4cc0e50c3f430ce9a1d5d7176800bedc36f92b7e4a685fe0, 0x1ffe8a9ffbc76d46c2ea2abc0e1fb3831f18c81144bce602811de39623d4a493, 0x216cd3e66ee82b1da658549f4df13ec3f38ce9341673c49859ff0e831827a7e1, 0x6b806883bf69388b148afd73b4880ff63bc57e089ef256e4a56befe78abdbb3, 0x1868f65214ce859946a2a86eb0925a650cc4d47a95b988a3bd98a5406faaec8b, 0x201b2cb3fb0002584beff69faa8a28968ce73207f731336a3d56860bc8d33d3d, 0xf1c998ffd657d5af5f3d1500f9821453743face03ae2ffd055bedf624b76699, 0x1d8d584fd393d2a8c5fa9fb2840012a4e5cfd1fca97f83bf6cca4688b3931f4f, 0x1d4c5ec792d0f9e121c17ff5754eff980a2477f142fbb815901b6c597f5f5101, 0x58283d9a82cbfd8f01675373aa63d9279e9bb463c225ae7895a8c51a794bf15, 0x2797be48c99c19a141e57cee32b7845f553923b08474796cbe0eb9e79b05f8e1, 0x2b54896116cc45dfaa47204d5156075d1dec98cfca7447af4e93457ec1d9ec6f, 0x1b2fad2ed7baee3fb3d2197d6a9edca30ece42925f13481e0f780172119fb13d, 0x6b54e3fdd785e099f791c94fabfc62c3cf75963c21a75a60e65da896ea37dc8, 0x2f3c8963365a4058a8be7a91e6e451dcb1d7933aa8484a5aa7359683ccfa87e8, 0x2fd9929dc895930eb098661ed0d152f2868bfea13e8992d08a69253b9e9afc7d, 0x25d1ebe8e9ec0fc6d182b906d747498cb9fa55a298f8f9f6c9b4cc2eb326adc9, 0xb6e6536ba3020bbe259f45ab1c38b2f5d36865b84ac8241720d28cdfbc34122, 0x23b8b4db22e8ff993e12d9b81757d1e7edc6c39dd4de47ef6caca147e9fad713, 0x1c232bf61cb7d3de8b761fda9304c24420b059fd01d42c74693192ad77634d69, 0x6d0184a21f4593daf868d9560e4647b5283892526f6a7f9c5ee2663c666d567, 0x1d96ecadc34f0ef9f5a9c10651d6ffe3fafa6d6c7107d8a92ede406c229def93, 0x25d6954f6b8e584c65d70a0d9fc5b575b5fe34e7ca66d8273928ed4b8fd19303, 0x11560d05817b7116aebc0b0e3cda650e68c0f528f62593af13587d683bf3e37, 0xa47bc556a1bdf639aee0eafe6cf7e7b901679b1b14a47dbffa1b19afdf877ac, 0x287af493d2f91efd9e12f3bc7c7c4e0e04dfe89fa9e68242fc418daee7337bea, 0x114980324eef85f90c3877ae83a48005abbab0c3c0f7df46b3244d84019ba5ab, 0x2f2f074c9bc276d9fa172a81e954b616cafaca11090da4c330f3759c68eac2a5, 0x13d19a59728afdda4583a9e180ccb9b095f5b5729e866851982711903adcfe13, 0x260f038a5bf94790b22f2796e77d65d4b53140ab18c617af7da59bb1ebad8f46, 0x270944854b771115be9dae3bae6007838e81311ff77e334755c37c2f8abccb1, 0x29fba9080e2201a4d09f179919d8f8e29b22b7aff11a3c3a1ba8bfd36880732e, 0x735d5519e7f9cfafa9e943ff54f904badd3c07812a71155579d361803b0d300, 0x123d88ba78d5d633ad4f4e78ec2806d642ad8d24aa9ba8d6ea4393d38c5a794e, 0x2f2c3689a6ce7d1c36aa42906dd8b694be752a4d5643cc8635501a987e638daa, 0xa9f37c901456b2a30e8d56d65afaf7cbe90b3a69b47112f6a909ee1c896c0bc, 0x696d1a52cd965c61b8333cfef9f147da7cbdaed71be5fcc0a4eed3acffbd03d, 0x2df64206d9cb7e763d94c72e85da26e6147ca02236f670a3bb97d0705cdbf1ff, 0xf924eeec090b123ae678a47aa3d4cbb2fbc33d2ea10affccbd55bd58021cc70, 0x13768e9d6ba854c557124e7ecf2e7b9a6a3bc1e25751c5db50b681b83f5e4e6b, 0x5257f1213538d118ae84b89e2adde7e4003e042836fda32a65aa63c96a702a7, 0x2eddb854c4de05814827157e9d7600e053c686346537776592c91a9c51efaefd, 0xc5b286e46a70f81261a1799c036cff3a138dd31af847eea379bfdce8cffddcc, 0x28ceb1311ae3f2112c59eff2f1de36f027fe748e398e61e2dfb5f41605195b76, 0x2baa3c428d4f39e1dd51172840cecafc93869a5d4d2c451ef261b91d833eb18, 0x12fddfcba4edc48ffa0af927e5d29d678cad43b1e5889e496512423c51c75194, 0x1ffe4a425765acbb4dd8f671f11c3abed1e43cc8729c8d7258a787366e6935bd, 0x518e1167639d7726de814e573f8d6e644de240190eb22da07ac2a6dd1a49fc5, 0x1088088ca3b2ec5ef3406d8b19498409253423a0cbaa579b78cfe22b8d2ffdd8, 0x141132e639be390f54fb46daf1bc33a698da31b6e21241ac25ba91b4a7a2344, 0x2d30e4075796050c0f400440059b3b08141a3c096955c00720f37e3349b10037, 0x6c0f8d2050410d797974e3a22b48d7b4aa0f4c12db7c71a319adec4361941b3, 0x27714059b3ca2531e3a65e024d3bd46869e854b68884a6b16869109a965333a, 0x1143e960033b2837e35911b225966fb3559f869868a7587684cd7210ecace9d0, 0x24561022b33523412fb78512e39617226ec874021939d3d0e9b7a401794632b5, 0x225a3a239054ef061e664b56d65efd62ddbe5cfef9f55bd402a3278b94c9bc1f, 0x4be165a533d19b49a0151e7183868a5120a2e6422b500441050b41c486305b2, 0x17258571aa87c63d477d10e64d069fdf231a6e47d4a31ddda4d6e5f1933f93df, 0x2a9a6b89343fc416e297dbba6f6bc3d284db180cdde66ce94b0baea5ff716b9e, 0x14e059588f8f8af22297dd77bbb0112f57e56c3b7d3ea47471334d34e2181b6c, 0x8c09cf67bf4d0fd0c211298fe47ed233e6ab52ebcba1b524f66dad01366ef43, 0x1916ed4b8a5f979154a9199566a8b361cc1007551ad9db45515f8a6c0e1b2705, 0x11ac7a860d793f97870e952b32464cb5f501e215e6691aa5d4b79c1c4cfccf33, 0x2770c5a5b83ef407cb79fc9e556a310bd6aa3f081e6b45d98a7683f60c3227b6, 0x1d412d15cdfdf748f3a97dad82987660dd39a4ea932fcbc51a082233c156d69b, 0x303def2eaf1677b5c7b9cfb679829804d6734dabcd7ad3a774bbfb9a8337bc45, 0x241d6d50be49fb796fccd362aaf45b350bcfd74573d144c73e7ab42e3047011e, 0x114727a81cd91073352f7f803cf621820de779cd7c6c2b9ab87cb5b382737d44, 0xd8184eeeeaff3b2fca1a4cdab39e4951e3a57327ddee51637dc6d24464842f9, 0x296998f1627009acc7913af056bc34280345ec6a9c27c73804ee142fe0b2b99d, 0x145b273c11c576c7578a4b02281d9b15153775884bb6e788405c4879c0edc2d2, 0x973e6f51a9cf4fbeca74165562d7a656db8f642c4105a2841b1b93489b1e73a, 0x12e81b001e1e905f9dcea512b51ff63d55488d57cd25ff3add4025cf3a9f67f9, 0x272e7880a179f5771dbe70ae7d7d51ca28914120ea1dc3ab8429565cd6a7cbcc, 0x155b4d3a78b1d705f6ce624bf465d82325fef70167cd7784af872872b348a025, 0x9203e60c31daf6007a9ef20cb2e34eca9d1c9d93e99021e0a383598bfe77392, 0x11ad480fa72db3bc1695c9bd672d2e09a54e72ac9e8ca9f45ff8a1c73f0f75f2, 0x5fe4ee300c48b0cefd03b8707154264cd513c0c883b463944dfed3040c55dcd, 0x182a229d10429db9ff0a5258729e706fe9282c6b7ca60473ea234ca13a31bfe6, 0x1ef4d2b668a1e1ce444d213f1ad4d23de6ccbbf6cf5a93d31687e53e967f9dd4, 0x1cf2d3bf240e01691cc6fbbf23bf48d21eb9b889c6294cc18d1fb79c9b9a53e9, 0xc110171a8f0642ac0edb07f83ae2c79d991a3438366f98c32c2d12f2f94a49, 0xd82a68b0570ac8cb4b70fbf2a60bf17962ff2886284edfe5aab8ffd84314bfc, 0xa31c585939669e5697c6b166767edac74e6359d364e1263134910927648ad38, 0x137c5b065b8d3a7161c63bbacd60dec9eb2e17c63dc696a5d157b648554b1c58, 0x90658991cce09af9bf77bf1fc0506346e5a03e3096921e8d436469fd75bb6fa, 0x9b309f6388a7f65393bbe50ebd6110854a91c674ea05189451cf6afd48fdba3, 0xcd217f30eee2598caa7389d2efa182a4756fadecf67b83915aea4b0c36cebb5, 0x2b9a50d2973f4eccfe26616eeea8f7f2a9fc1f09e8d2853869194402179baa7c, 0x1d444efa271e105a83b3105d469ca1eaee6a27534b9a62cc210b19946f08e1ae, 0x16e21e081525d3dbc0f34577fd1436837c912d3924ed75557718992d14dfcf4c, 0x157b7cfd75560a0bead677843c52591d17554d8ef8a015be23e34adc390451d8, 0x1bc4666ac3f4cd1f5dd72bcfd1dccfd8c60fe3722a35f65682091586dd285284, 0x22b10f5c2194d9054221ec2a9cc6a1bfc1f4441871831d5f24d3da686d4d5e9e, 0x51e548469d19290a23fad84daedd2b5495591f22c3dc6bf467f1eaf12a09f50, 0x166e64fa7d0939c9127aa58b7aaf2bea61dfbb3138bcdf3dd9cc986e9ca4f0c3, 0x2e7f8d47107c0f31031de15f840ffc7b43b8f64815dd7c10357e852963f14c84, 0x15598a6b2c7ab91c1ba768585f11d64d4c9a3f609ace9039df753b4cf9016931, 0x83008079d5900cf73ac9f0501ceb27c3e92250eccb88d10d0e01c593202e8c7, 0x28e30096654da16fd90ad2c20080fadb0bbad109a3ed189d4238eafd2dfc3c4, 0x14eb993565894d0556189adc509b5945f1275f7078bec96997c3630b743e93dc, 0x203011c30db2185e3fef5336058ff6d9a5d05c557c3de1b627bb4aad651db9bb, 0x637901ac6475b826f073e1386498979efba98d4b5daf92d2a9abb63b5aeaa74, 0x203cb3fdf3cc234a72ed4c8699327ab6cac0e8b7479b284c08c7097d1629ec07, 0x1a1a408f899c84145b135ca0a7a43f35eb3cb77cd512430c325ce44a11ddedda, 0x900c26da8557e0760b971e35af5866c7cc494ac2fbf20d862130449ec41f9ba, 0x303a4550897edb795c6a63b60ea33cc5eef82fd0449b6a2119ab74d55e49c241, 0x1722e5a843482b59b079aecb995c43d6b8275e1413ec08a55f218b800fb3075b, 0x20a8aa1a0c2fb4cd10a82d702c2c30104f00de5ad99103a724deb52e9d801d61, 0x2f980d7eddab02c06b6fb20398e7a7acf6132af1a605d0cae0182294952f5236, 0x181489870649491f84912c75dffdd55cd0dc00b08724ea1fe43147e1996d8fb2, 0x1dd0b954ad2e65acc5ca46615391ae78b6dd2539576a9de4417555356f9794bd, 0x194f79cea624f2bca51d368706521a62dc473947209aa5c50083837c16eec6a5, 0x2ae9c244e4b0bce42b1b55053a4fc96ee7affda23267920a88e87f16229fd132, 0x1ae6a6a8c9bef477d15a21176aeb422be24e5d0f0cbd8c9cb37f4b9144510e38, 0x24e0e6a00b175e22407de66815bddd096b42dd73fb551eb810f84e01be304c0a, 0x2f16ab5671089f7de0bbd1e1478e45b9fa6284ff4444cefc8b43469187b83e5e, 0x19dcac9dcf078b6a68523d3bcc3412980e5519ce6db8d12b6dab3907bbd7e0ec, 0x20b0bb1f290136ae88bdbc15b3c864624b07ed3dff579055c1680b0a185f6b06, 0x8e893d8af978a0fba2a42f6bff7f2fe3a74d3765eadff49a82056d014dbe346, 0xeac99d7af74de1ad1ffaa9b5f43eca35d6083495536c0acbe98cbaf2d7bec2a, 0x19e9e6d56923733923a15cd7f8a4350352ea308d6160473d5937e9c4b50b7cfe, 0x18e41764dbb5d20f85831a89fdc14094ed0343216f602661fa5a54dbebc049c7, 0x266dfc6e9d31040cfdd1088840fc0b65172976f58e0640ea6f5eadb28eabcaab, 0x9f1ac1f5d80d143d9cd087273a957f13c9ee26f5b76cf30d3fb73c392f91cf9, 0x1495384c593ec4da248a17aa457bdbe8cf95020159ff46eb973a6b558a6d46dd, 0xa11a63e5191eba16f6ccb4e92bd6389c929ad153c53a130c933a41f46b6b4c8, 0x231a22a2e0f6ab20466445129d96a40feec1b299509949588c0f58a766d9b3f6, 0x3a3eb1110d75b9668d0d8a48da076e7dcd2ed0fcdeb9cc3538c11773047ba5, 0x28b52bf6dd8d0c5413ae7bda5f1e6b5d3e4548a4505d08e36f77b72629d97790, 0x1ba18831433cb15405ee724bb4281bba541299cfadd485c6b17f74fce436cf57, 0x1d295967084284a212b841ea2ebf7ff29ddcfae8dbeebd9df58b5f862e7fd808, 0xe863567d788dac1dd5f3244564aed928c7923bab8962452bc7885724a93472e, 0xc214a5053ea609e5608e9a6d54343a32cd02d324f6053e338b34dc0701ab5c8, 0x16ffb0d9b5f3fbd6bdf1d50383723cdd72f3530d3e7ded29883b900083c608fe, 0x20e05835550e6a362606f50251d8ac0706e2fbe57e46b4977e52e1adf3489e2e, 0x1891a8d1b078650521b08c416216caa086e0e98365aa1d5ba41d4ae076807ade, 0x1bd1319ea81a8f89e2da3f46fc7479c5efea1e4237bd5754f56f719b23c107f, 0x1c4efc3b2c0f2669cba549600ac023f7815a95d24f9476589f734ad7b94fa8ed, 0x2438e3bf4fc727a743f4c4409548240e6e852939f03e85e352c31ca386c432fc, 0x28a8d250a0a2aa2acf48d79e043e252eee15f1d1e6a84d58bec3dfaf37f0b855, 0x2a29e7d381d8d8083043970efb8aa561868393850a0f34a0a7ebcd3d7e36bdcc, 0xf9e579ed04df85ea802b488588769c3c0e5376c42a968e8bd0b02dc23472493, 0x2a81dc03f49acba49709e9e780c56aaa9ddeb245fe6026d784c47cdd89a15be, 0x207116aee1e7b7022a90ac821435e9f7ecb94f9fb942f7b6ff7c6342a02417bc, 0x11b431f3210818658cbac818f63655dc6c31f00640c487031a7a6699b54a7242, 0x197a50af9dec2014518b3e2fc26013a44f706466d4596f06243f255ba3818325, 0xa6fd02bcdbfcb0200dd89f9b86669bfe8627ce67454b2404d4966f1726f47ad, 0x5fac5cfd5e2f5690704f33b440e6f739fb4ff4445c5bd3a69789db652fae459, 0x27842cf8a4ebd7009ce2d7ec348ff783830acc87479ad4e401efd5e7339d25f6, 0x2278683aef662a07d427d0a36ee6b52ce9628e9914cc53bca5ba4ac2493663ab, 0x294cfee66c7b8de505e0c76e2225619066ea5ebe39af92dba7ab74b8780853a5, 0xc6b60a8e2ba1b774f52c1f598d14cfcd9aebdc8d72d4c87db9c6eaeec4df37, 0x2f5611fd9b8a9cb052d3b6ef2b2ec32d48218862daa4e54d63219fccb9e0ac4e, 0x261bb66ac988ca3a7e2dff027944f8fcb3decb9d985b05bbcb0fc6062080caca, 0xb5e36bdb5742eda03a1d1e3044465a751fa29be2804ee69b38c2f29438624d7, 0x1408760c6504e35db02d76d0b6a1755719c757419a494baa596e5ae0a4b31219, 0x2f898e5947f14b0655f04bce35dfe8b08aa41303f602747748353959b95d7dbb, 0x2d5fad29cbf4c420e6192ff7eaff97862de5523acd6a81ae61197e85e0f220bb, 0x24203764364f1ebcc8f52daf648af6b02de9e46293ef2f52b8956269f5a30458, 0x1a8627a7fa552c1cd073aa53fd7cc34fb7120513e2a756ff7335b6ab23d47e32, 0x19edcfd6befb3fb5dfec768b5c4aed2b27dd9311c4bd49edae8498386de5b3e6, 0x1eccece3733c2a81a006975b9e433e6931da70c649fef647f368a67682e1a5a8, 0x13a728b0bfb2b322c8af665a8478913f2f1693b39077eea89eb81de4125ae1e6, 0x1773b5b09655e9bddacb50af4f33f5e75c7eaa8f4bfa4680c4be11c71cc2abae, 0x1d91107ecdd5de37205bfe827e7800c8466f6572bf611a77d4d502242af5b230, 0x109e58922b02d172c8363f88c5b9225cc0122fb980e0d210b84d74a5abb01a5f, 0xa0d1b2d14d861fb04c07e85f40ac8a4af481ca602bd224bacb442290ff74b2, 0x3ad94a5e38fbfb5bbedd2d3617e6fbcff4f5b0bf89329e01e8cb9538f91c26a, 0x235269a08752712471e2d8b204cecbf633f8a1b087b8d50d4386bfdee47fd0c7, 0x63d22c46f6125a208206f6991a7e553ecddeb4334f770f69715b9c31defee47, 0x244852bd0f883825948fba58c795389f82a0c6cabd905f6f6596d60b8a72e7d7, 0x20c9c3fad08a30d64daca24d77cc93e07fa9531a9458b64e7c36e2b8d5de7a55, 0x28f02c4b53c5fbb9b84f9be7f2d1151a3fea40829596152ec7a9591d7b77f53b, 0x63282e45c9b2fa5c6ac5fccb64f3a941204d8a7d0dbfb6e2f2063ba79dbc93f, 0x1322957803e814ff656281a896a1b454f83ee7591d04ae45c55894efda0d4679, 0x26f91c6326c5dba2e2332e65e25adcfa80ec44deddb1cebf62f5c3b90fce07ed, 0x1b006a8a282f5fa8fa8268174058fc457bb3e2270dbfabf1a77ab10ff193e1d7, 0x44b4701a897f684f973ef35f913c8714b23a0bc6892398d2999d5b897ddcf33, 0x290fa6dc0e09ec4d9c78594891374807f42e9aeddc710dae63c9e9a824f1cf32, 0x281b64631470b98572a677637e538166edecf6a4846ec4b66857aa8cea9d612d, 0x1bce47add587e607ed688687c0179da17c54ca73f9b4f6091f816eea1727536f, 0x15c8eed354694a3012b822620bc91f1d68c7bac0e6685f0a15c48ef58941a196, 0x186ea82f0981f8ca347f0a9eec056daba176a44465cbd85e7b8eb7bd0580ff85, 0x3014777dfb63a11a3d9b734e7a47a4d3b6ac4fe406e195f3ba32a015817fe8ac, 0x20ba24356eff7ae0b9ceff1562a4a41585aa9ca0d45915204e433f0728b15997, 0x2e6161643b1b31dc3829448622dfa6ac7cd79321ee432399877dc4edb25edb32, 0x24b512c632070bfce3efa8bd2f34bc100f0de647d0f5510269ff2c01c7f29ba, 0xa9aeec22efd017571affa68427722a1fdea69288086f9c693ad2a42e773b59d, 0x15c908e364ab93c1611361ad84f06fa11c53c2311ffd1f4694d63b2b982c5772, 0x2562b5739170c5fa1e1cfde87d7a56c2795a1df9c0d6e500fa6b3759eca84986, 0x4135965e6fd02788d00f9ae2183f19e0936288807f48df45ad3ff1a70f69e3f, 0x1fb4eee3328ba9d3c79f1af71a38952c405f3de71458cf48856da83e06a96f8c, 0x18a5e35384d4e479459ad405c05532553c24fed90b8393f3a30b8c38bb2ab3ca, 0xfff7f73e42a52ebbf30b6e73fd4d45c21133e4ce228f534ff6e3410b5b39f17, 0x159a3daa666c332a12c6c56e7b56e626d8eea9f2a36ea6aace95834ce6cc5314, 0x1424875221f68cbd4f0de4472ba76bde5e4c790a7aff782b4eb121419d61f567, 0x18b3209202c6757549296b01095c5cc390d7ae27b5231dd8414e699abb18613f, 0xebaec9cab92b182f65ab68cfab4cf7e1a80a36714bcae30798f61187a6a9300, 0x115552feff175b6e3289516c75c721e15922ceee83425938783434d12dfaf147, 0x22d004875985eeb33417b4ffbccc689588b00f5fb99c76cf605a0a2428a82185, 0xf396a65933c65ad9b540ace1416bc4787aa4b6ca3f7f2366a4ecd95ef12ce3b, 0xedd7d28e36173f0c3b28207ddc0b55fa12e4f54da25e7619871ca8d8439d42, 0xd7d9009c3d6797090e6e1059933e21362d2cf037e251fbfc2b6e18611875baa, 0x2e368c153fa35a3d9ca68c21a7ca58a90ba28ab252a18efce5a2d59951d7e480, 0xcd6774ae72e071a0beedbeae7a449ec52362f76e5b0e0a4419eed187a31bfea, 0x13c25853d9680d2e8dc8c684ef48b202e7a227592f76010a20d593ed672029ee, 0x17a717d1e3f5854fb59b7f09e6f8d513e32ddb8946467f7080beb8ca10fba076, 0x8691117ebf4e67180021fbd6df623ca48c067e9e890e1739a9672a2eba49ec1, 0x19cad12c44534134c3feba2082a29dafeb550920f13f376ccfb659e835ce8ab1, 0xb7c75d010ff98ec7b5ad1e3a17a1e092c353c544f8e7f707f5e816519fd6fcb, 0x2055156145c4411db547bef92efbfd4b8a1bb5fe2e13193e0d9c07f39e5875c7, 0x164afaeb4166726964fe5a079a1b332517980c47a33a04ce22f56c33d03411f8, 0x2936c50982fbdb0f56cce6d4f575a31665fa813d72252464c2776a70ecbc2c6e, 0x4de9f4b9d4424cde860ad5534daa8397b1b83835d83f00372fac4e376e6e907, 0xc6553007546816e86c7d90552a6ec216f9a34987be622be17ae4eef454d5a5e, 0x1a7041d055f98dbe2d87333de8a3d0b4f6348f4eb2968aec9cbc7dc3342587e9, 0x1467cef176cb717eeada2b84230336a70ea45e0f4af5c55a44aeae23ca563a48, 0x250aadc3ae989f3e82f4ab1af04ea5ad3d92a98151d06046b6354f98b046110d, 0x553972aee593ebfaa45c932bcb153e62fa638167b46555f9a8a74a361f78afd, 0x4e5656b267f8ce0b1a315f9493873eea35c1193f2febdbfecdde494b6945838, 0x19401e900ace225941f6c581824e338ff98d33f2f0b43f3b74dfbc0951eca86b, 0x87253b2116e8fcb45f8eca1b3cefd921105e9cefb33e3cc0bf7da006383b80b, 0x135bd80682f771572bf574f3f714f34105afb21e87d72c40a2f46ecd8518ca77, 0x11c234977200db6c688fc254053ad3016390a025d0ca0975d1337bc077db38cf, 0x16a5b75b970e48a5ec3eedd2dfb08d2b6c95b732dadff1e1c81e81a3dc9b24b8, 0x27edd6afb362a9da2f60335207d7296d0359d339d418602a8c27069d167d23c, 0xc7a718e63c1faf872af76187c5c3f8ffc855d4095f5c55dbaa00533515b238c, 0x184d77c3d6d7236db32d9a3e48c95fd448a5a0c1fd3e5ad15faff8baf1039019, 0x2031859dbe2a3689a9975b41196fdf2eff1a587a9247361e78b7b029763d63e4, 0x305690c19d76dba5dffaecece28218096a32980cde7a9f4205b1989fea80dc6d, 0x2de2fb494197d9c1f1451641efc2473b85300d05c0d27e7ed1816de14c94a9ba, 0x257e7ecb38903e44f1a558b49fd0022c3bdd932598472c8a12602b7a020e4c35, 0x32507176faa049c0dcc74a8ffc7b327ac29743679f21ff553170afdd2f04bfc, 0x26720296b4837059257a06bdc3b09d26928102cde57e23e91d1540cfefc4fe9c, 0x1af78e5e918963050a415db24ab45cdfd81539caf74fbef4b800473a6235a0eb, 0x2fc7b7164ff4096593f45cc674765db55d536cd4e86711085fc05bb2a7cffe0d, 0x1a4ab0f4515b49bd3aa4adb03fffb4514d9aec224f6768315bbb2365fe99dccd, 0x1de216e2fada4c24d7fc78f587496c24a8eeb7aa83fcb9cc737919d9eb3d85ed, 0x1aa330dc4e25a8d0c910bfc87a7ad051e48c82e62586179b18c2ce956c8b335a, 0x3d5fb1caad9fb50491a73974c8dcb282e868a605494dd7a1ff9b2df16b0cd6f, 0x45e130424d8e0d943c1188f9521a6f799334f57dbe62cb05ee469438e35b4ba, 0x1fafb6e25f7e91a4f20039c29e947f863c090fa29dc5664d9f8a69261327e4b5, 0x287a56018cd08f5d6293e1652db8cbf40249cdc759a84dd7cacf4979cf4df559, 0x23b3508c33e9cd373874da82d6c15c250aac99d33de516f0351d7c421545057a, 0x1b3745b04ec0f843b9fd872d6dee97c8ccfe952a3617716231198d8bd837f44e, 0x2dd389f08b6fe3ad079bc9d1daed7b1698011d74a913502bc7c7a7e1d739fdee, 0xa8cddb9be00c6e178f3ec831482b8d7dbd7e91b5c8f1da27f1386068e58fb14, 0x2e89a90cc4ade3e2150cad862b6cbc4ad40b8fe6779a8e61efc4827f5e43aa55, 0x2703815217d57fb62633da64e4777229bbb663fcca7628ea35101a5a6ef991c9, 0x2d1d570be0820e8d90f6eec8bba76821e90ef209d705604d6e43832dc8760295, 0x2d9053b8863ba6cd46acffa0891c0720bd9b78fa1662bc0f842a1e05de62400, 0x17f4b26ff311b1b4d54e74ffa45ad283565b677ef40e2e4e19a635d638d8d344, 0x2e68020ca82963085aefcd925073a6427050e04906e7930c133f1889d123026e, 0x2574c30da10c274e658dea82f3d5afb58da1a834cd25b7ffa5c59665300b1eb9, 0x15c361a25585226a86655101e0f0f3136c7b777521ac2409e56e666ca449763d, 0xb54e1c8bfe294a08328395dc6cd3a353108221161cd70fbdf118c3954cab9c9, 0x1805115f1d5b60191ec5a8733ccc5b1b5b4a32d81c70f23982df2a2599528916, 0x2934d73dbfda4666b331a0cc2f38f7e83ed8093cf29d111ef74a7a8d7072c5e8, 0x488ec3a6563536696134d8a0a51a872cfc4aedc458c44eb6a7235af9263c95, 0x1319d9b4fb3bd01426ffcb26f256b4f8634e0f18f9597dac37a0f5f9a00cbb47, 0xab5e82e345e304b1a8a0f657fdf3fe03efb006b2e53fc8e776506796c33581c, 0x3fd68ff74722b09cac4d58b377e0818671d9ff52a211e449ab162c3d0cf875b, 0x1e7c552e5a8f3605609c3667bc1f8153099f46ec8edff78bddcff7e42372d009, 0x69952e9cb26d8ddd8ef84484f4fff8495601489ddf9cfbc86731ca15bc2b42b, 0x69de4322f390fb4b3c4116596f9a8f51b00f2ecc9ed53b8ce87037a5d8cb36c, 0x122e535351d03790b9a1411ebcd5958a16baf61b01c106f5f158461dba427258, 0x22ff22f011f8c226ece797d1e36b1201449338fbd523fc46ba52fa48b3227b64, 0x1161d30490f1a507df1a75be86a5df94d448a224111f3c313ac3fd273165388c, 0x2ae2fa2fc3962f22ff6bbd4376b6477b2ace3fa963586637d700ae936d92be09, 0x2a9dc09bbf2c43f2dc75ab6f9bfed365703a43b9c358101f7ebcca2082653b20, 0x2f402e60aed9c5fe85b9face12c2a770483ace81132fcdc9fbbc7eff4874c30b, 0x14f352e9dca46d65efe8bec37b89a573f65f0aa8e0c753bcd10d24fd045fd0f5, 0x13c70c3bf42ce34c36893390500b82fb1486a30d3921b4ecb1fa47c085f20fd9, 0x118619bb14a53a21a1ecef9113b10e7c6b7a36d3b38f7e6ce5abaa97fe96bf52, 0x236a45b272320cea6a74280f2a954e3b157174b892d5f3b2ac4b6e5c4dbaf38c, 0x20fd78a9f662d3be07c07b99e4d4cb804974b3fae1ade638d8800e83490b31a1, 0x4992af8b903034facca4002586466136a675222093ac348a7784c8bfbcdd9a0, 0x2354b2ec8c7e8e6d1a93f7307342c7b66dd6cc9313e5db3d06c380feb249193c, 0x1ac8c9558885dfa7d7df490e11b102854df3de5b14c5fbfff2f7aa3f31fd2e28, 0x6367597ab7a2e533d99a4447726388c35981b997632e555afdb491746d83d2b, 0x1436363c86ce4a176a882bb26c4b75f5ad8da469935a7fb3be81827d0b5ed494, 0x251e61d00ab4ef232c33d55a73388eeddd65e3133bc4fb3edc709797e9529b18, 0x273656870c7b8b89d38a63a9485663adff3c46ac7d43e61606e26f5191cce0b9, 0x2ec2b54c9aa440e0fa017bc29135eb124aea0970864b8f1d794dfb16f8b8cb16, 0x134c654f5a38eccb1070a5a78831bc005ba6ac7d7a3b76e555580eb1233f949d, 0x29bc8e34b1a10f97997502440979b118c5cf2af2abd97241db406947505080f2, 0xcf3112832c45c48c1dcb5ed866a51365b5bb7949c0cfd9aadf67d125d4f3ab2, 0x78dce521d3bbaaae5c79c768ffdccd8b04e111d8b46c1f2ffa6d2e602ef31fe, 0x162418eba2b1930a1a9a5b9fe0ade663448188e25b28ac81410ff08c22c70f57, 0xbd3b4988cad29012c9dfddc9d2d75812634ee0a07456435f1a0f73c02ea08cc, 0x11e33b5988d6b2e5672d58c5921f7b1cd7290635675b9d3e0cd07e81acb2f58b, 0x72bf81a1308cf51759f27217c968746b32324bc9d429270c10e1671a6f3a759, 0x55853a33d1150e0e106160fe1d7fc65ba18fae5cbe59e8fb6bc8cc7bd663216, 0x2083fc1ad350d82f1d43ddd5c7fa475268c2927e0f02e6be71e5090f82137169, 0x26ca79a855958e45e1a89bb4546f838b67d98dc4c8c92bec26a0efd674ca6211, 0x9c669aa0e831572be5a542e8498090ef693900bb4d79a588aadd5cdcbe62696, 0x261cb90ab796a6235a92da9adebbc39dcabcd01874af5d63d90d66037ba3b57, 0x7c14d288cefc862399a1156e7fa72defcfbc0466e0768abce1e35366450404a, 0x2ddcd6dacdcbbfaef37cb2d4c5060f0ef36f1110807fd81c43089cd45a26da1d, 0x162d3c3fce8f30204c522782c0cae66f911e432c8b4476166b35b5f530d3e8c8, 0x90fbafe1f865f43fe3a21609b7d8459fe348d60a4c471dc62a0afc555cc2648, 0x1dbe8e50c293846305c51baa3473e29dace57e6e1af48fbb23d81556eab5733b, 0x19ffef9bd58ca547ac02f4b953cb941def36fd834c1f5ec5a59418b2d22df911, 0xe29b047951b6805c19b7a21ac7d24129ca8f8e2b385731b2194c1905f21e401, 0x198d3baaca379db6105675052a55a31c1fd44a8773a9d7c789bce06e07719d32, 0xee8deaf28778a46bf818104276bbdd9bb48926ce699bd185c649a8b4a7ec16c, 0x303d98318c186c8579d1803984fde3284744ab161f14bc457ba045f3c1329af, 0x265d7fa88c0af3c2ddfac0db3d464c31df095cda96dc391473f833acf4f64807, 0xedac8d8183fb0ea31af3b383ef9f921a3c293e8bdbf95598f950a202a677cb9, 0x29fa89d16190d1634704cc096f030dc8cc7c5c9f86d13d95976b6f178ffd2154, 0x234c3e31f412fc1fb7c9a5b70ebe31f33b5987c73555fc0e4ee7e75280d84264, 0x2e053dc186786e4471d0ac6f5e19b33f638dc8f6439077e2cf368d14d4fbae61, 0x1d616ac50587ff0c730b1a099a8daa6e05c32dbb5dc36649d9ec0c1feef2b533, 0x37771eacdc853125cb0bc917610c0c3d3b065560600b4aef883bd173adc47a0, 0x31c46216616ae3241851e82decd045f40a89607c578c6248098b30c546e1e76, 0x482d1d2987d7bfc6d256af3072b41696038a557c9867a8ad267027ec3a5bee, 0x2115d7cd1cf9a84f43fb6426aebb8976578ff3e5646f89f240a48acd16f0fe1b, 0x26da8474f5bfdb9c88e0d72f32227af2c5f4b6340c8ffc96b0423b1172c7f79d, 0x636db5afdd335e31958a70e694e17245df7fc8d148d1cbe19ff880e7dc0af6f, 0x7096b395701facb3492ac24564c468026e587deab49ef63c528f418f7e471fc, 0x148bc6df9f364b928d68180aa6a2667a29adff966cef3e340c3680803333bc31, 0x24dcfecbe203abc67313c8324c6339a22a9a1f72fe944591c8fe003ff2a19620, 0x20db93b902460ab611256f28dfed3e7003b3d3fba36d7bef993f381f3f2230d8, 0x44e39201aa990c4e32c94409c1b1410fcfe511f2f5abc94216b0d9eeaa47a1d, 0x2aaf90c30ce60e19085a54153f4675921b8e65e712bb4b0a040d4c11ea6653bd, 0x23fa0908d7d89f3673ea140ed664f7d1eeca765fb236ca8a78ef2bad304a9cf6, 0x1f19c141089be7fd73fd0bcbc3e672f924e9d97fe2eda429fe25f5f1f8c1d477, 0x2fa5b884aa9746b07e87209d1023582478603a994f1ffec3c1d662fe09632dfe, 0x272bd4357d44e2e2c152f694efbbc238125f0f534fc7a8ce7803a7e77a43b6ff, 0x1270fa5808c0ca1433423b90060c34ade01f3a9c81b76d4d2b3cf7158338639d, 0x1b47f9d3f2eb0fcd707a1d29c7f0fc40481fb6bd2e192571358ad06e42995218, 0x1661bc3ed40445c9b8f5a6b74ca52c81e3072117a6b9ddeae562f6f51bf9b8b6, 0x38c8f5bba73df7d9aad4f06775a656a8eb780c0b8783fca440631d87d486e0, 0x3797c94554c71421be0ea2108bd5dc2d6172f9c0b51e818cdf0c998e7658b5f, 0x26f801cbead2c26bc2ee66c9c561d6648f9dcfba02d573316998070d434920a1, 0x1bd9eb0781aedb96c9799f709a0caba80db0cfc155c437d27ded8641de18e61a, 0x1485c83f748186c1b8e237eaeee6f23e093c2509838436c084c6ef0b88303feb, 0x195ed64dd0a8134694858f96fa14afb40218dac40a3304762325b8efe03a9485, 0x2ee31061ca7160cfcff414af67dabc5ad156a9de263256b791270a6acf9f0969, 0x15d0f0fb824860bdae5f0189bb09ce4b3bc002a7f86e93bf85678d5c9bd517b2, 0xbfb2fdc19db2d9d7eaf8f2549ac9aeb8e9dcd83c91e67a047d0fa7fd36f385c, 0x179cd6248b5c0af277b392c623b744f865a8b1fe851df27c5fc2a47a0aa1fa0f, 0x19f1469f9c81707666f6db900e8d90123b715e74ac0224adc357ccdea8737fa2, 0x21339a2203afcc5f2cb1fd56d2ee9179637ce45abd2dfdc9a7c561cd7fafb68b, 0xe65726da6be88d5f916154d202ad3dbe3fff5d65ebdc29c7c97ea82d9987e47, 0x2564e8b0fbf65f1436a9e716a5ec7e079eed2d6db71b7d94a2f2434e0068682, 0x2a236647dce4e45c60809cf6d1603baa4362953ef852b8f785ee5e959011ea49, 0x174acce9e73a9ad5ecaaedfdce776d4d1c6b7761fb1599ccf97032a59c5f3f1, 0x10cf2a80803b6802cf2a63a37e127b556b70d65bbb61657f6821ca45a06f240f, 0x16167f9d1b3ab094f67d0cbbf40a315fe39b45e4540768f3fa35dd6d55baf7fc, 0x137b1b07cb60ff07b21aa151724f9bc6a50e4a17a68f2aea512fc1e93968c897, 0xd590eb7aaf8e30dced18ca317ffbd048a9b0fc80d37c54a8bdb7724d8dd645, 0x2d0a63690237ad3469abd472e450c11fe51ee1440d3bb309b2295cb954efd3dc, 0x22d55e04ba0d855f42039d18a1dc14dd16305ae516c689d5141a9ce5720b8f7e, 0x1cc71169f322b9595897b864438208b66a71902b73f9518826158d7145dda58, 0x21f949a16acb35194d9e53fdfc5ac01f3491775170254c2cb4b91772f46636db, 0x14cf5351c14c087a59cf5fa5303c5752c33d446b5cff317e4570df7d685aaaf2, 0x10f13bf1727ad7e9069fd6701506f958fdf59fd2d08b0fc5048c9486b43eb64c, 0x632085e771f74df8fcf5ebd07f95373f832cb41ec980897da8a860c05e9b0c4, 0x16fd673aa4b499823fb173d9efece6e6b604ae03bd5a8c677d7aebfbd73bf592, 0x110da915aca9c87a2c4614b1ef6d6f03d8227d6c3e2d63bda028de1a580a438a, 0x1e6f125f3f81a4545935e520f5ebdaf6f99a0c03b485f582fe23a53ac66c1b8d, 0x12c069a83b55b665aa90952fbfa8347ec157c11539f49640d4bd2358da589b37, 0x2b784e2f52c3b9522dd48baf6c3fe282e2682ecc50fb16755ff8a265ef6b882e, 0x1494861baead0058801d47ef56842723c6b96d04d382e47c45473eedebabe484, 0x9dc71751daa5a14501bb2c3cb8b22953f3a3c3c88cbb77b1931181741dc7095, 0x21d3e12c5de6525d5dab5a15000888e8ce36f40be3b49f03b24cffa70c739311, 0x1b0e70929f5772f72eae56c8a272d3195689ec4688d96570b46e19fbb66872c8, 0x140fe4a3946bdeaff52c0cd3eff628dc40e30af8fa8534c67a6d07c958f33df1, 0xc7349dd6d791d4871433b501fc3c593352fd6995dba4fa687f501ec8986f0dd, 0x4b0a35cf626c40f82a1f07b916076c0d3598b4414f73c9f6c97442024441a3e, 0x1db02b68964ee9cd52a2936cc783cc12f88d98b60e858cb36366519fa012b388, 0x10e2e956993e23f93c073c7ca4db0bfc7ae8e558f676b89b1ee66086203c0596, 0x1f45de365f1d93cf840280890e369ef6e4c5a98b9a7f8339ecfdf604d5e6f82e, 0x1cbb85bda895dc172232f7d59845c6fc171016b82c91d91f433261fed4ea9c7f, 0x3d3f3bb86ef161295f9134bfe58441dd72b6461b5fbe2d5787902e3e5ab1de7, 0xfff02814d47b34516dd84ed17a200c44ad72f4080f8057da77060d11471e9ee, 0x2e9416d3161e4f7b023ba61c8f6635617855e308d6233b4e85e941f7a5e6c9f8, 0x5c70ee3eeb80db84501c1544c24161ffd5513bca5cf2b5c740011e3793d8ce7, 0x666d733d249dbde4fed105b2ea2d6d4b991983e2b4f58ad54910923d0965dc3, 0x27f945bb22dc180a99a596449e83b32dbd10e78bf4367531ec11e4da936f39f6, 0x12e27af14b7ece9b8bcf7bc1c9241d0d85f9fa47c83153836e199eba8961544f, 0xa8d6c9fd80c799bee076177a1f9d7beba446ab13b7c79956f07d994677946fc, 0x8a0d3646c476269077062dc3c447553d61a4648f306d20e56fae32d109886f0, 0x73faad575449ac35cdfc514717251bf168ececf0329752db7403c5463ecd84f, 0x22ee22f436078de048d593f4afbabf56f4a3fd4e07e8a6645fc68541f0e5fdf0, 0x1b50235ad3b1a6f6ac75de3a9f75f4f39866e6012439c9c0179ab032c4266a5, 0x2ecf4f3c84f75ea7b10ec11a6b2596166ce9b5a28a526f80cd02d665226a3feb, 0x27ec7f3ec5624cd3319ab85f7df1380283a59b36ebf18ac38bed751ab1a04bc7, 0xe576250e1560c77cab672af14ebf856402468d2e9b0ac03f3cf29709e13d931, 0x2251f276fde77c998d42b5dad05aa25fe98a908200b440bcb7babecbb77e7ff1, 0x28dccf77c467c7818192d4787e3848bb057c49be099f60291a2f1e48de1834c, 0x1b2dbe9236f5a27ed5c9e3b70e099432d324f380f39158e119069f95921133bd, 0x869920b8f5026cc43cff18be390f74c35586cd2b6943b29ef7b17beed277832, 0x16f4fcb1833619bee667206a2c91cbd91055b10783059b0be52e1b656d67600c, 0x2a50cd6e6942fca74acd134045c28838838723fdf651da02bf3b3d7741390824, 0x2dae4ce829a70182dbdc41a8eda89651110b2c99c60565ae336df2bd2afbdb6d, 0x2dbfd9447d4214f9aacb9f5d2924d545d07310230c1469afa03b283b8c7ed93a, 0x10e7bad952c8a632ade1d077490bf80b125c1a05ae4ef7912e69f152d6406de2, 0x28d4ab3097fe8d0377f4a2678261166b5bb24c51f04d768082eceeb3c6b1fb43, 0x772b1c14cb95aa6b39de1d4c24ecb7f08d26343b14ad85821ba29bf5983b263, 0x1856fa356fe94847f57602f5fd41da9d4ca404f858e29e7237568a8f1f52ca05, 0x2457b8229dbdb49c207e5a1208b102b0f86c9f2a76b4a4a23c0d423304bfe9d4, 0x45fbfe6b2c8759a8234e16f0f4c37f53312596fa90b2b7bd27f0b55dc5aef77, 0x17f4e29758239596e70478aaa8b63ff126a74055ac5b80c775c0f924d80f2c63, 0x146cda97d41fea38bc63c955144a65223d4f5652c51bee160dadbbc681252717, 0x15cccb291e3b75673baa8d2c4846ee56da33ddb497661760c4bf19d52503ec2e, 0xdb560c5e93ecd131b7b26a4b777c28234c9d15588cc5e5f2004880f5ed76d98, 0x277091f4d68c4dbc1b8b93570cc249973e892f48db3c356a965816a23b286841, 0x230c0878b8e670672f23598b7717cef1b722a448d9d14e04b81ef722e72bb505, 0x1d7aae3cd8dd3f91e27cab6f15ba2974fdbf72782825f99405a50c13a004446a, 0x2c87e4b81173ce8fd99c9bdf2f0c4bd39e3245d84cbd89d79d8e9fa7de963589, 0x2b3137b3a764d5f3604232cc17dd2e8ab96d46a7df9e68419b4e7c18ebfd5a8e, 0x1d92d102f4f430d0e18948b9701b544e5413d0b5bb1e056ee2672165bf52459d, 0xbff74ca04e6568b8feb6a03494311339d7490a75d073368242784ea71f0520f, 0x104fb3aa7fc80f7cd356a96401b415aab91c4077426fb088f2aa972822f9786f, 0x21d5c5327f9c0ac66eb7da87ba7a63a24e47d8e03eb49817ab9f1070d864f603, 0x2f29beb28120d9bdc4e147946cf7cc260bbbbe5ea6421d7d3bad99af9f3b16e4, 0x1661d9d3ab98e7204b2355e05768d6cf4367f30f1446d8cb57576c71d8f83cb3, 0x2b406f2b9f13585e0e5e44db5210add697cbd3f0b523249a21ed63494097bcf3, 0x9d507b50072650b0ffc5c36a63a35968063747bd70a655c9f0e07b58ae4a881, 0x17e38db767cff7dfafc813e9b6773e75d9f1257e8bfec1ea9e8329e80a87a7d1, 0x21b5c11292bac2662798e6098d0ad0f29f8e6d826adf5ee133c21504ce0ab2c8, 0x35e47386120af666c32d7c4fc87052b30ef18cfc2b061937e935b0903134fdc, 0x4f981d3a984ca2d85f9581d7a74f859b61c3e0136d6c450d17768ca1987ca96, 0xc2a23457f590b126af6a4c54d1ada810121f4cb4975d8956d844cffe0a5ba5c, 0x1b5ca14cd976dbd10e76b12b7bfbc28a54ac8afdb669639dd4c5f69f91e8a9d3, 0x183f68d1a9dd706109a8936faad813a89cf3d8473ccdc77b3ce29333b7aa7aa9, 0x6a5f95d98b5573df52a7cf20b0e3336680db5eb7833194e82a92ebcc6ab03e8, 0x21403b255d1256c0c736ceec52f224c6b763f8b6d7230b295b4a14e9081ef6b8, 0x2f0d6e5992b021e6c4806e078494d985335a44bd043c27ec8fb96210c733a6c2, 0x2766137fedd6013d86d9c93d3d8e05f9f7434aa2db80d444371ffeca8d5461b1, 0x7292a1dc8afc94852dde4bb513ea938096efe1ccc0b60f53baf031e64ce7aeb, 0xf64f4a028e3419e451380c4fdbdce5b03ff40359207f5bb119c2953433d52d3, 0x1c2b3c6072f344c7aecbdb388daa18463eab5cb5943d2c57afefab51824b37ea, 0x12cdca57b94c8aa6c214703d5c456dfc88159401e7f66d1481b00f36dd8386da, 0x23f505ce933fa0a7486664fb00e5ca54b685208dfb4999dd346e4f26a697b807, 0x1a84bb82ded6255c6ede37585e4e28fe787d20844df3094fd03c82c6f2cc0b97, 0x10a6655befac54448cd2e0e7e52a56c178d3fe670b11c58b16109fb759f4efd2, 0x1a26556d515195ac28f883768f3ea67904ec23f742ce544fba2f854313bbe14f, 0x23a8eef087916f1ed3df07f7a60d9ce2c2a196d4e9c4231d0e9bc16cd0e3885f, 0x109e59cbba700e22ee2fa0b85105e52833c7c70bc6d1e918813aa2421a188e3f, 0x1639528dab1dd1f0e9945b63b79246d3e872c0b1bf637a3b680d98689d997759, 0x2313e8d331cf2e342e132d2a75ece0e712afad8b0bb32185d91b02493c876796, 0x3e96a03762ad8273fb05818ab28cfad626ab2c3b01465f8c973b4275f2585f6, 0xe318637b7f15366c44526d3ae3c0d33bda12c294a4876988c28d09a7f7608b7, 0x12a1f1dc357dea2da4cd6a6325cd2542289736117d947b3bf02d32045085354f, 0x117374b586f4692b1682f8d026e9ec7332a43f7b0929bbd51543e21b3303de68, 0x2bafd7bfc204d9e55b8a53b5641e476ee5fc5113d631736b7bfaa349e618dc24, 0x8d075c84ba48cf35979ba012c379abd58827f1bb562155b19bca5a09ed0be24, 0x2b0785443a2d5deee66eeea2b3f8ab317dd37a2358d185dbebadd5a336676243, 0xaf228650aa58e291b19b511225c1f0dc11c5c982d9b9ae57a3e0ead52667acf, 0xb4e7e3454f2b9217698632fd31d95a50126394453c89b6945250f8d36ece0a3, 0xe5f276c143fee910138e17115becf458758ce9bb812d986c7a89b297581ac79, 0x241341f84a8e31629592e3c2a5a33f5a8f853f610df38842b80967f54eb3d30a, 0x20606300d8b0643f6c0cb4b4afdb6d3503efedb23d693b1c3705cbe46c27fc62, 0xbac99db56310e7df296760866502bef6fecd4c90c17ee5dc13a704d17159622, 0x2171b3c348a2df153f26768e206114b0c4968c3c99e8fb9e7d5d069606398f83, 0x5fe9945cea71eb802226fe6ca38357eb73e86a76fab2f66d88976c822419fc0, 0x43abc2f359716a41d6c5661950fa31ad11ced0eff1ade02d43af23dde903bed, 0x2a1d4d9bd164d4b3dbccc77591b690fc7fa7b07e09fa5b2709887062e44a93c3, 0x2f14b4a9eff419296a645716b4022cb6fc3a8f3c97cf077fa60140cdc43bd4a5, 0x865168248c7b18aa9b38c76774d180949daea2d647fce0f839df5d749d8548b, 0x26123a0ea393450f6fea67f7c11acd63848efd02d07380e364cccae9a6548d4e, 0x22c637ff2907aba15ccfd3f77be12ed68fc32f8be96698ed7673e881b712d43a, 0x117fdef07c59ef9c9a770756027104730ee9e6b4398745393804a176268b8a22, 0x70153c96b148cc400f9553965366f632ac923fa2dddf69d3b6bbe503ce96296, 0x1e84c7981ee7a8fd3f7f2050c364e921fb310a075a3ae817c00a77f873bc9011, 0x661ff0cde6e581660f5fc3a181b00353bd0baca8016d6f75fca269508ab8d41, 0x15beda5d1eb94bee696ef86d0283ddfe69387fbf0c0ed75f851eb55c9c97202a, 0x1442078783c42616f54d9327f5d43d659713e2c3960eda452dcb89ec3e503359, 0x260670536ce7e64cd31c97b23d5b96c494f93fb3b1c0a9d1ab7de4dddae8796, 0x203890235f209fd4c8b66e308a8702e964c52c2f0218ebabe1db114e6a710817, 0xde457d3fc9a6188d5e936679da8606a114ce54513fd11dea8497d55dd0844d, 0x825f2c42df2ca6927ef679536bdd0d813af3070a5916b259eace7f21438ee4c, 0x2fd5b16f89dfebeb30841632b9890f6a5681caa6622d5cc4fe9d3ec8c7a54306, 0x102fdc4167bfb4a2ae4ed738864e5b5c1f3bfbb46f5c0ca926a791bfbe991c93, 0xfdbaee0a9aa49649be987495cf7392f4857a04aad29ff25649e0123a513cd8c, 0x959f84709aa0b385b7d892592d1b6e177bd8a8398ffc6bf07a39b7c0c48a30a, 0x298668206446e92e47d41144e2f4c5d00eefc03da20a0a2a303e5750ccc6efb9, 0x1a798081d88ab9e0bdac032702b4486087383d5ff75c0d68d1f8b9b98e9452f4, 0x23e94711594e7e4c671df90f260ecf63770a76352cdf5f471ddc31e8e0064a24, 0x2dede69a440649fe17322b8bccf4c1ce84b7e051bb82e99b81407ebedbac7028, 0x34762b44e47bbafd5ae3d7f8173d2aa0c1da17291370bc2f84659b4c80f483b, 0x1ea442b0545ba6243d92ea9759a23d73285dd99873e8c3657e6a006a3ce7cc25, 0x2f53038432ee14c75222813f3380f02ea496d77cb9bdcdad3d3c85ecf9e93a7f, 0x19d7dff298825937fb7c4c17d23d53119ae96ed3e397b1df7180fd304461b50b, 0x1e71ffe6e516b57b4822f537f03642b23201e42e5b0cc2239733067ad89023c2, 0x1dc46d43c2a715d565df9e9485f3dfe928bd53f8795c8b03a1862773a7cf67cf, 0x2f5469db95cb8cd752a683e4d2870809c1abeb2f84160ff21648151f7b3f0188, 0x2739dcc2e48fb6db002a2f0d724f52cd1700374816e592104575ed422fa2c6c8, 0x2fc5655adacfbf8103fc58c8cb5e10dd30e933ecfba2263b087a61f3868a4a4f, 0x10ff844496fd5a92965630f5a5d51f67e5b6e36a64b2b51c28bf4c7cab403abd, 0x9b32ad8c1e10c31e9264eeceefd619e8129d9c305303e8ed4dc0cdb522a6ef3, 0x29db150d367a5323c352474bb55f235720943dfd6cf968c34b73fac9fbd77822, 0x205e44b540bd357aa8311f36c792e9dd500a3a49de4e367eb885bbf68862b56b, 0x1d6b67db7f8b7200a82ffbb2bd26b18dbd96a53bd83c5b4264edb905d843feed, 0x253677541389370bd4233f8067a78a69d6e9e596f59e282697837cc1415d989f, 0x190842923eb80f2b220cf15e3f8245e4a3786ef2584fe60bc3e45ca34ea43802, 0xf25ded631f016f91448fe7aa2d0d13dd40f99722c508085e3148774891e7563, 0x1163738098b1c787b6ecda0692f277db4daf7872effe8a9ec5230d8d988b7bb4, 0x11600f0ed3eb711dc6d3d9a0d96f4ba3ca2399bf9249786ef73900c9b34e11b4, 0x1c8dbf5547d551e31a77a502b1e0589341a2fb95daed81c5028fef4e8cc16acf, 0x2e4a5c1a55787bdc046bee70f4989f8f935de58efa4890d813855631dabc9484, 0x1d6035c010bbac3bcc45493acef7cdf406e2e876eeb32a8851f6209c385a78c2, 0x1d6b6fb9c2f187b1ec8373a18d077d3563dc1e4829c73dbc656340ae0c61b2ca, 0x28480ca625ee02475417fbf4fc651359b034df55b56dc62eceb9a79bdbcedb96, 0xc004ed9c509fd77f0f9841f39f4fe11ad199277daf0c4359f002bc78d974f14, 0x219b95798d9b2ed2d230732cbaf4ca57b7d04074319d71a739fca9b4c083bdde, 0x144f1472c3c7a639ddae611b2eb5be22ee6df25a859a05292ca8307f8618c3f3, 0x2a688177e96545cb91f9cfbb44a7a14b24376781097e9561314cceec16c78b7b, 0x24c898e032f33d7e0748a544160206258c97865be5489896c9790acce9251e19, 0x10abe1e0df0aab96d5d73704068b921ecc1dcff78d605a13727ce9dd8b0eaee8, 0x2e80ae39eca1770dca35a77a48a991b6dedbf54924618756df064d4b33f2b658, 0x15e39e8f8a4c7f890d0cc707e28a696ad69df5b48fa37b74049b50791a22c272, 0x2d5e7a36fe68b184552bbc452beb476a96c7a85fd2196aa9572208a2c02a5632, 0x1439f040b4c907c5082d330ab439de47b4b99f1179ba46ac20112506a82bc14a, 0x2ec996b247a0a8c1682d1d0900f049d70ed0b01e169e75ec27d769a160e06c43, 0x124171096fcb5aaa5d1e793c53867134ff1a49c6a90f2521601c4e07bc3495c, 0x253ea269e4499bcb0a140b90cf71cdf924843d35eb286dc03059647f7611a1f5, 0x83c4fab3c20577223fac6f35f8ed59bfe36a4702da514914829bc1ad979217b, 0x2284f546077f31542f71656a454d08bd85e080db4eccc44490f88dd89d191c41, 0x2cfe51e414d5d94c3e2a46358c6b1fb5ead77ac14cf7a6f53b460a7058a8393c, 0x1a85fece3b27ab5241e2a72032ed6e7122414bbee90fb40721011aeb30e944f7, 0x10829aa85b64078a84d4b8b2173e0cacc3cf1f5e3b8f1e1488c1b416bbdcb8e6, 0x475de7d88dde94421892d8c48683402431ccac412efcd56fed01bcdda39c5d4, 0x2e8264478fa612941193367da01857f791b377e2083b3613a5b243cf38e65f9, 0x13496a43dd1cf974965170a2d81bb480d7161d58b5170f5f134ebe721029ef0b, 0x259a81e924ed46c5441edc5a5a75e6c207f73c343e6850d7aef9839bf9869832, 0x2d2ded3e58eb843eb39a3344829143f506dcf9e74ade3b97f2f0dc5d977914e, 0x65fe7a3cefd7dc775bd96d31e758619ddc371df362370eac98599764bccbc71, 0x9ce956b584caea51c5b57a33d13773b71ff03c31fae9bc149a97e281554cf81, 0x1c135b8055f27736b4c89ca09ccb72a37294e06194bacc54deaea9449ac17c58],
    M = [0x4523bf1a8f284c6d95b310dec2b54e0e00e59b571dd9d46b6201c18e1b56dfe, 0x19a92ac6087ab89982fe5650e5e799f91003fd8b45400748d2c25e40f04c578d, 0x302608d750f16491df5a285f5f7f6a5ce6b554f5dacf0b69d450b24bbb4967d7, 0x1a3c7daa6b4af5662d0d8407b287674d83eae5b7563405f48def49981c98c424, 0x2db1c9855ac29acc679367dbf70f08d98894077df2411f91ef68dd90177c1e9b, 0xf06ee47558f182d810bbcb214a25da7f70a567a0464b348e1b30eca7de99d27, 0x2166d78d948dafa963381cf1560d00bf3a0a1c288a743344c8643a58daf8cbb3, 0x2929be9bfe3f93cd34fceae665d96b1de1afb26bcaeea2f4edc454c50cbc4401, 0x1076d439c67997c37c6c1fda9a37dc2f762dd577946f36fcfdccd7898ec67cd4, 0x185c9ad0da87cf824624d02bec3ba4665822a0f6b3b25deff3afcc687ce1321d, 0x2702b1be39e91044fb73926c1104719f4c037aa4151823ceab24f0cec49f4648, 0xaf71a51cd463b9faeda93803cdc03186c7781845252fdf4e0155709d93dd375, 0x28667f9c7332073e293c80b98edffae01af4f67b4c52ab45e49db8b30f182d28, 0x2763c33f5b2d7bc3a23040afbcdaf998bb13254c272a5f8635a12606a59c2e5c, 0xf81a8d8e08758e8a32aa8292666c4cb6ba3f5f06c4dcf4fc502ff97f03a85a6, 0x113ad8b46c3eec20c9965b5a7b2e8a51529871d0401b4de6f63de9e5211623e2, 0x7930cd5256f8ab77ab92b08bbb5b195a44a2382c66e27514619efb94e649110, 0x28f8144bdae1b904ead70b3b72c7943037de6b48490efd3177783594edd28b9f, 0x2474f543d1f2f33b5ef3fbb190651135a59390c8a3661fae2df1d3f14432b608, 0x21715a84742c02d057ac41f743b166da023228425681950edfaff8581201a097, 0x1ef0e0c1f0b5f67644c486fecf02238cb7f4fa63a082a3c030daddce65a4b82a, 0x278e8dac8c56b28a23dba4d90fba91eb947f5092d4a7a9ec7802f61778488e87, 0xfaf33843e6733437e98995e6f7bfa6feefa73d7410d8585918c347f3cfe92a5, 0x2ba437d6ae6c588c6b71506c8b508347e634b65cee317af1fbb9cc2a997fc006, 0x24a6c1919f94aba9db98a5af38feaa5391cda79f9debfaf118670d7927e41db0, 0x4d80e7ef7e27a2b1397678ac42abcc6e2662c880503e4643fdfbace67273b92, 0x17f6a3aedb0005a9b0a258e31b8e6e2a48f3f9551cef6812a49075aebb8785f5, 0x1e62029129492c8bdf8514945950681361591a9f5eedc2449e5f229c85bb97db, 0x16bae774867656e64fc95f3c249f801f150fd7ee28d195bad9eae43743875278, 0x10f0172799be23a8fc3f156adfb6c512ba415e35167b563bf7b186fd12a41e57, 0x1fc50a16dbdfa1c3b99038f47f81a1c5d1ef6e7b221d4ccca6e821220130e000, 0x2d8d3d924f2897199e38eafbc7e101d17d7e563488a9f3198060796ae84c1b08, 0x2aa9aae62cdb852490c650ff9e27c9b33d4cd4020ca66f5e1a6b374e662935bc, 0x1848a60efc89965073b95773f467666687e38d59be208e8377d31903921057e4, 0xc893808103549d2030cbfe0004ea6655e24ee71a1f8c1f072d5cf6e17ae2499, 0xad80718c6e9d1c67b4a37b9e103db32f225fe42a9ba655ff065618b87b82aea, 0x20d87476f1243f490246f88736ee5fd6d33191f0561271487e9693fcfd7a649, 0x134b86642ff202388f4fe37356ca4f0ec3805566b7d4d412d8937a359ef9b401, 0x2c04878b4cb8156e9983d11574ed99dc7562d3fbb1878257abbc68852fdd2680, 0x1783a45215805ade9d359232120b183db54b43f9a7e8fb8dcd95ba9bbabbba59, 0xfc96302e8662de23cc5c8c228ac8ac2dcdbfc488a59f4dd41e3f27095f7e195, 0x24b22e5ce671ce79dff8de16d7cd2bd6375d7ecaa016ecf59cfeb246dac80720, 0x52c33fce08d4a39fd805156c8affb84349428ba4920cfd2e7902ddcf9b0557f, 0xf0d475225c99702bba4fd01276102b5cabff7bd4d147c0e3cdee4c07ac31b1, 0x1183e91b7ab7372f157d4c477691eeaffc9e8863fb2d806570c67f4b1858fc54, 0x1214a9d6d7288fe85651a8cb83048c7669c83b5ed82ca2642fff01e852a44b4a, 0x1c0de2bfeafce164c9838067a8df6340f9d97edf0122333159b714f45c3f13b1, 0x1e394d80067f0e10baa95de0d99b4e39204a18727d1401b476ec976b5f173a82, 0x2ca2d8b0a793d90ed318cdb5f697193137155bcfb942d82bef558be5fab359bd, 0x28427ab007a68c7ab12371f13bd7dba0acf7e97ea6e64ae52d5219210fe8a2b0, 0x2cffc378d2cec76ba7080b37fc671a96328bcdfc4630fcc2f2133dcf29c70dd1, 0xcfcaa1d7d382e1fe1fcb950e14df202a08793d7185255b025d562eb8d97544, 0x1d8724c5e641d96f6e372771b0a776bb742fd3c08e1ae250432246cd3bd01bde, 0xfee8f9731397974100834649ee87a27ac92be7a3810303460141aafb542a429, 0x116f239abe820737b5e1e82b2ace3a45cefac489a6bff084e323036f54277108, 0x2a31cadb918d78b96dcd548b394425a42e2aa7a28a6b63e509261bfae6fa25b3, 0x240caf6d7ab2f7b6ab3d15efcf3074f5b2142a1e804f25012d988454809e096c, 0x2224c85f0c0b4093014db1e817d1ff16918f15e0cd231b848a48cf83324c4144, 0x39a288951a0381e3aaf598ef132853b5d694716c20db87923f0bcf14c914a8, 0x17620d438499f6c0a66bb577add4cadd66ad39e3377d302bf83d3bba126b2aca, 0xd421a7c25af5538788f49475836712af5da156f88c5867568cd958e305026cc, 0x20e4a28303dd55e5cee332f30eebafbd7932e7b3531d942454c344b8b8c17cde, 0x20bd028c958d57b79e35218fe34e469ebdaa8e8e714e918d58191f65046b972a, 0x6ed98a185bb2358f334eb257ae5e3183599c054c1b4e2022569b8368da1abc8, 0x51deb4b234890e31f5ac8e69a1e532453774ae93a9e9360fe009ed377ae9c36, 0x21f1f6a630471e32a8b9ac4b7ed4b04c56b96a71ee20a66a5458c6b8d5c6d346, 0xc39dbdf6e6d24a91a0a45f922c894be252baa127d9ac76909f86dc0bcc68a66, 0x305614aacdfd4167cd1bfdd8fcdece6892d84d4a65e86e6f7c6349fb75e48b96, 0xef9ae65eb922605d4260ab2021dfbb4774cd5ffaedc1b79dc681208be6f85c5, 0x1adccb898e5fe18b5c29a4708c4b112b56d0fa5d299b5edc07d6f5bc00428b8b, 0x18a2661c03ab9b0d8f7d01091c7e563efc033196747e34139d3f5cc7ac001e9a, 0xf8aeec74144d00a3ca38bff10bb0f3a8dbff4af6197847db879745aeb57b5ea, 0x1f53514a97e8b57204e57bd6b1b1d9555f3b50368154154e67c2134fd3151591, 0x27bcd639c47482d2dc8b6d13da19fb8d63f3d6c875f6fea486da6ff2ee11e107, 0xe9e8373114ad25af97d28e272fc42d8490373cab582193b874a10428ee6cd21, 0x2de8ba83d2b6ab6a711fb9230adee1cba46de8c930c86d266acb8c1cb9684e24, 0x1bb15ee4d492a8e2cf1b10db1b738c6780066ea8347abe536357a723f6cf57be, 0x27fa2120431379cbd86205ff114f34dd2dbce13e1c2a0a8e46a1dc27e7b686fd, 0x1ab527614a37c2ffb00c0fad360abaa447ac1063fb9fc656d0148cdce2d7c372, 0x170cee2983fa3d3ecef2f806f40eed8d8e135ceff076fc530bbfee876c9e7f1e, 0x288851770f1a13822251da91c84e123593fae1c9cbce6c4ff2317e70bb658209, 0x1795384e91bafa554dedf5156cd799e11210ffd2afe817b5c63ad5b85e7fdd06, 0x2cda26473cfdcd185ba28cfdaa15e7de2359646a0287ebe8b60d702df009010c, 0x27ab4b40901465ef59007114ecf1fbfab6157c24f402246b86a60397267308f3, 0x27122781df7bb05f6ae9e14e8e99da5c23dc77cc06108c0ebb061e5d1be93626, 0x26812acd03db3412cad4bba1aef71bd44b0094d318ace0366c79e729ff0eb2e6, 0x213d29d4e1b6c01fc0d109ea6169490076d131d8e034b3040f7bd9c3c373ea17, 0x2132f71ac89892c984a0a73653f2d45222ada34181a9e6dbcea0d63961f934f3, 0x121395023931f6bb3ef28b6063eb7a2ed7839e083fdb92c1e5593c83edff5f53, 0x1f665ba33da4ab9d9806caff77ced39c9be254fcc4c5da8f570096111fb109b5, 0xea7be82f1cb493b1bbd83ab7ca285bf0a1559ea05c3f59827b3b013d0a91fb2, 0x2ccf31a572412bb7d9cfa637707853217e7db5550b1cc30a894cdf483a3b63e3, 0x564651bc1179170e3c97afbc4f493617017b43b213eeed86b9b1bffe521fe86, 0xbc769cd7b34fcd1b454abff0c00b89b540a619b87c95444679c3ac6be84d450, 0x244b6b63f8041a5975f4640b18c7d067e4a0627f18751dc906016b8893c35123, 0x2ff4ee110ee1be62e2715dcd119c95b95413376e88ec3ddc3f06fc9db8c27a94, 0x2666ec1a67daa7beb057aa0e6e8a10396601a21884372369c012b49aaf849049, 0x2b0666971fd911529e70ef918d019f44b5c9d77442b6d1866f6e76832d478847, 0x2bb5bf03cef933e4ee87f511de3985cff0323ab7b718d4cbca3f429addbf3052, 0x2e37a7440e75b649a0799cffeb7f9dae38fadfc7cab6c5585e4a84f437729d02, 0x371f0d49346df2d88b9f1ada8ac99dd8125cfa6c30f3738fb9932a853268e, 0xd0327b593042de04f58e0ff93386d1608d33a86872c1d3e7e089120aac7a4ff, 0x4dbc4c8de708e59aa4b2116e53944bec97ed42309b4a184561d8f32d291f9c1, 0x290ed9ae7479f9be13af13f98bf88507e6fdf018710e4859fd2e48cc66ff9b24, 0x135aa38339bd927dd5064e4d572df55811b226bab54b0acaee511d60aedb02fa, 0x1e3ae7e5775d352651d713ebdfcebf9ca8e905cfb792bf7874239450f914c8c5, 0x1d492c34b245bc12941bb163c5118bfcf85bc4f344042b2031ed8662a1f6ffa, 0x7333cbd0ff13c8ade1febe72892d9ad435c7b451aa72a8c05a7082395882865, 0x29ad5236ffbb598a2f8d238703608db7a497a7453ef9d579fbf05be38f8f76f1, 0x2e72b1b114dfee7e8d7f0161255c6895fa786070ce62d806c45a22d7d98a0a30, 0x2ad369a84b57f7455ba31064001ca7779d2b4b96b0b4a91f156abec366aab786, 0x15793f31caea39de315dc5bf5a3662ad5d8e1a12fa1a7280f2efaadafa97adf4, 0x56c55df543a8d4043a12f409cd2c4bcf43a770f3e38c3fc79ad214b42da834c, 0x1ee10e28c612d9d6ee72f1274850c3e829be5c06f5bb293280152a5610eb01e3, 0x29f356dcec3b79523c0589a7046ef0758486828b212146c3f5ce987af3fd719e, 0x27cea9c43fe0bf1ce9e53c0c026e839d80a7d869136603102cddf63cdf28b975, 0xbdc078b1edd9cb1fd2c2a01a97bdf7d458648439fac1f28509b41a2dc9e7740, 0x2565a17a6bc56e87b0b63664319b8a47bf662c1f49e2ec9251be4fdf33d90f4f, 0x15b085b5eb678f8cedf21bfb30e2d64ae1cbdd7472449ed24e6034101c658868, 0x22bc96cbe7f8cbca81b29ba7df848dd6599035ff515b6d485550842e1a35a1c2, 0x5943e3618a32cf050018a4e2375f4d027b8c14ac82a0de57cbb90c5122a64b4, 0x1c9b5c2c07fccfd9dc6b3abfe05675fc997eb7b8cbd8d8b4cb7e671615b0ecce, 0x290a7ae732f4754e0cb91923c9248971932607be2e829163f11612ff8a955b10, 0x1434ece209d491280c5ae05d7e26cf92d99bb7289a5c1cac09a38ce53b6e03df, 0x228e7399b0e05802852bdd5d5e09966f03c4c3aff53c683eb2f69e0fcc21c0bb, 0x24f0fa154fcc6d6459d6c56f711f25e38d57e90be7b8046c9e001815edb41404, 0x18800bda17a89832fea54f26741d86c6b6fb9e15b02e7bd065533cb5661d2a95, 0x16b11f24502aa4cc3b0c2562a18a24ab8f986431b244034d3fc29555402b5f4a, 0x20a9d575fea891302b106439ab03a8a951d8b2ef2b562991946eb2541f1fbad, 0xf9c05f609ad14debeaff107b95accd60e62662259905105abfafa9e8e08eaea, 0x95f1db43c827e6f0b9cd4fe929e7b8c78c93fd02ec9e0f10992feb753b4ca07, 0x26bc00d9cd25124442832d97abd90866d3fa7a401bf38bd95fa7ad526548fea2, 0x173e80596756cd9aee04bd6dd9dc15e4b8ebbfefe3771d9819bd4d444726f79d, 0x12a643f4a327acd2454514dd469551e36ab0e3f24ecc3b28a76dc1f38214fe38, 0x11e1b0af7f5fc9f049877154ae173a1a72c7bc3ba192e438a9d0fa81fdfa4900, 0x603755180f66e98215d61e5346b116cc00cfd058274d7d969b3af95e78bb335, 0x243930ba01dfd3945f2aa02d588922b47c1bef2ff8023a849b4ca66a1bfe98b, 0x1eb520feac62e4545f4fe7cdb675e36474b8b1fd19e15d7c73a2b1dfbb23fed7, 0x255dfbdf30553413a1f8f5113d60e98583838d13e11c1ee02b25a387ea00cccf, 0x18451132581b9adf996c6cae15b92d2e4c09fdc7d6c27b4426f32b5e66a0b723, 0x7221cad39d9b5f8db705a8723038b92b6baf87284131735eafbecd533dda6d1, 0x156f6a09e6a81d8eecf4dbf21646bb968b2406786cd1dedd4cc732b7532f7fe0, 0x18ea0ede9010c7bf0fac361b5b8e7f97c75ed93a13a7ad4a017d920c03c98686, 0xb73119c98d25eb6de14246b1401bef485c9dc6accedc23494b9526a39d53221, 0x1c66828552cac1443334ed70b7fd7fb525f907ab64479d117864c92e911986c6, 0x10a66268dd9a2f368e95507efc2085eeeee8ce977ca1eff5b2e3d94bc342ff58, 0x1f14aab5a59ad452cf692b123c65873dd80ffc188798a4570eca792b3f2f257e, 0x1d34655b5776e24701621acb41324cacb50165e019bff1e65f98304f7d822a6, 0x16a1eedbbea79c5411a639e3bf0e90f6e3f740f141599af8e6a43a2069572f95, 0x14de448becba6ca0adb21b07455d2c2864c7b85382267026e28f0978822d65ac, 0x19817db66fdb8215ecf70476c4044c3f41d78ac5a549c684e35845947dca0b11, 0x8f328e5e66c0b879b36c233f598bd8578d18e2da9f019f0411731524f42d90b, 0x259a2a1f046844724cf992aedc2635f6680f55e8a0fdac695ecd05fbc2cbbd19, 0x67d9294b4072b12c368c2816a53bb16b7e7e2a79979a416f2d02af862abedfb, 0xe1d7ec2a54b11b36e65d7551e9a875a88ccc7a6c0470e7c26e199670a0859b2, 0x173b3b349ee888d934aee9c14e889cd7d785d1e3e4f1eb72a5c2e56c48fd54c9, 0x2977658a10de6e7921ab9e34bcf07bbca61a72549ae57d0c15691bd143d4d2de, 0x396097733de5a1fa4a548749b73ff7c426f98d9e5ad16920614d337897f6b1f, 0x2a66defcf489c23eec5079a0ece1c5341027a59e7c592e760184b826d70dba9c, 0x10f43368c0567f405aa6aafcf367e3e68beff957c4b0cba17c30c62b3f95490c, 0x25a2a43ee612663dbd61814f2deb06ed005a7414f99825f8be66f542f95a7b2f, 0x182f1c93c6eb29867b1559c58207a6aeaf40b66eaaf579ca6bd7ca40aaeb7abd, 0x42eea616d905025147a482eb436a3b75535c9869b76d6cdace118e15c91fb77, 0x5ce7f592dca2148e198554fd64db8c479f29d23f1f16daf3cb8930d9456e4c5, 0x1844a81d4fab57aedbb4c4628e2e47fcb2922883eab0b2e1de16f248de4bb902, 0x73965f7a9ba8cb33a955d42da55fd7c37a3f0226b029d36dcb3fbea95d642f3, 0x284a2f083ee32a6663081c800713e0f2395e348dcecc89fc81aa75a5db2ba12b, 0x8f78e6dc59cd4694c41abbca086569a9083ca8cc800bd9134e4d48ed9d89dc3, 0x293ca8a06c5f179d938065ea47f80f65ff21969a9429e400aa177ecf6b6ae853, 0x29b68e652deac818824da0c2a11b408d7a839a2e8576c55bfa5f1335ffc5b93, 0x9bc3e40bfe5f616fbd520f3894a0fdd37feb29429fd3a5015953171de3a70f9, 0x284181093e43419789263736e544817111fdcb559a43773f05186608acc542e4, 0xb9d5a3a957eef251ae9c26e53423f9be6f2efc24bb18756893a9d80e56a0825, 0x4aa8e91dc30f9ca318fe24718fe595871f7897e92d57f2d87d4b1bcf9a635e1, 0x253a11c66463a6dcafd8399fca58ba27febbc307d8833c666e0d8df072c5f69f, 0xe4fd498778c2c76a02d0d91d8f89825856e706f598337dfebbf3ca33397968f, 0x126ec8c200262c45d1133bf9da5f1e5fd62bcea1e493a080af1bd283ab86f122, 0xcf030b10a1b4291e576ebabb39c583fea0fa6decfa98cff7a96dc06cb77da51, 0x110298fe7f2bcfdac0bcdc3affeeb436d7b3a377453ae778fabd37a9acb299a7, 0xeef04f24ae210ee0a94bc5621574783e49d4d93365a2b3dd069fafd43055452, 0x9a550431430846b6694125b5642b00607f36a1a29485361a3cf427da77eccd0, 0x19772e83816fc2c49b96427c6ad0573347fa49a5df691252592aebc390055a35, 0x2d8ec6adad3a646843c88cda01285f8f32d29c6b1025cb5421422bf8bdba7fce, 0x255b96258dc8e1644f1bcaecee773632f25a6ea803cd32a1e01f82573775f6fc, 0x186e1360041193e12f38099b0e35e767affc3410f6a8dfce9bc75567e39bc402, 0x29cb31e1afef4f252578aabd76f23a1320aac90d4a0a66c2225e3d94cc48d22f, 0x200fa20ed1b871313900c01f8b697760d030d8cc0150fdc58e04a0d8a2b344b1, 0x1a63a589d1710aa705136cb520c2f1c44d778e490c212d4b72e9f1538e5555cf, 0x133369b3bcc73ee793e869360cd50d8df60fe398ed9d9c0d0d03e669f796e87f, 0x1e99516c240d42bcaaad9c73f21a46193db8433349203035eea30398f9df7893, 0x13d84ca7f358aaffb1ee8ebae81c32e01adc01e90d09c9451af36e31af82170e, 0x5a78464a4b6bbca6e96d839827bfddbaa9d924840aef6555de643df167d4caa, 0x260ef13ac7e80fd2db3de9eb942edeef3f5e252d4c04508b1e1b130191ad0df6, 0x14829f09d4beebbe6fc30545047243fb3dab99c62aab7364a7a5b427457a02c0, 0x1328467c87ba73028921a89333bab97f8b24fcaa72f43837cbcfe5dfb7a945fe, 0x68eb4e9d6e0a588b61a6ad501f380da0f009067666c0853d156e33d59c43515, 0x2dc5900039d4c8523ac379945cb9b58a54e01dbacd67f0c4baee85d353d3fe97, 0x1b72ac4374e95b7b7d28cd2909507f3006e8352d4af19e47b0b909682a03200e, 0x1f2a8dcafe79fd0ea22bb1563c3b28b23c5c4d7591d45e06744b3b379d426618, 0x19294dd22da673470377d671fabdf42cecd37ecbc018386a438706d6106b04a8, 0x1932bc6bb488b736e0d4bf306d41e622e66c1d685aa4598153054b40f75c0b00, 0x8d1d68b8437bc980aa7c59d83393b162a0827de74070d2d34b4eaedc17e7e60, 0x1c0343816b8cecba48519b59b0fb6d4a9bad309ee38311dc3e8cfe8bad75dfbf, 0x709eab96cc6255f2ae917914f25085025490c423284916e23b608638ccce29c, 0xc67a06b33cf73882b1c7152d4585b78223d85c77cddc2c7d3594824c5016565, 0x740c1e9b8ed16e9fae204369c554cfb72007dccfd2530f2e34d544003ae5994, 0x2a84c424eb58f9c38b4380af38e0458468980988faa1f0d4c6e723845678523, 0xbc367fd93ceacb599c614aa28068783a5d27eec1fc8fa1765015b76dd82f5cf, 0x278b58503e0b9014104f8c446bed4c6de575c72d4dd9db3d1866846979aab9b, 0x791d832e976b66bdaaff450731ff35d998595ab9748f695bb45d2c0fef06930, 0x225e00a0da5a7f7496b70d0923a7cf7ff332bff06958cc0f3fad439874f6024d, 0xcc378b44e58f668b45832fdab4a49372731ef2415c37f40b5ded5594aef3cca, 0xd7d8273de237ba2d4d5e8051c5bd5e312d298b6726ffbd3af7e732af91dff27, 0x22ebe0a315e07be4b0928885f52449b011b3967e519e438c424cc0428c35726f, 0x2ed3cf0214f444d436655e03af8aee2b4d96961eea06e8133bd6e8d3e38234f, 0xcb6fa0a5e11b9192a51904939d45a05af8055bdea3f379faac29d1309830e85, 0x39598a1443c009678602b8dd3474f276da5d62425083ec628a1737e8cca3e7c, 0x1af56e6575123f99c5d7ab7b83770f0fd60fb9f4038c2942644069e3c243793d, 0xe8d9c0707dc5bf80a2f08c343c69cc659def86630af3141a003acb3d3e90c08, 0x1f6dd8e85d3597bb6d37b47a1f063122014c888250b38cf8e82e3e5471ef84a9, 0xcc8f90bab68e6de84845da1899bfc52440bdddb940b208301ae94a95777cb72, 0xc0dcf2b13552ec55c97166be347ca2f93b07e2a10164096d353fa280c796821, 0x1f126117a949dff900fa5d111a0ce2661bd9d5444577c491a9951cfb58192d, 0x138f67fbd9cb91ef5206d48cabb269ac42bd352cf371e43311bccad89acc509e, 0x11492ba406435f35623906ff45df11c39efb59fff09f501fb893d717e34f9d61]).* from "../poseidon"
}
