// generated by tools/gen_poseidon.py
module bn128_t13 {
  import poseidon(Q = 21888242871839275222246405745257275088548364400416034343698204186575808495617, T = 13, RP = 65, IDX = 0,
    C = [0x1373c771cdf15121a224f330d84b6688ef9fe0038a3bc26a28e3196578a0000d, 0x29f9fbda3c999836017f76e121af3aca5ce78bb48fa867a6a95e5b9db387533a, 0x1c7eb5116a20075c169b786d9dc86a24ee7a2525b565bbc262209a8cda490528, 0x21a549eb554f0f859f61d68f1b6bbe9aa3449a6238546bbdf2a1c308c9cc52e6, 0xb53fff701347d1b9df98b46175800e0d3250ac6d4a1afa71a349ed195873508, 0x2129ac4742415c020db2473999b34dfdbabba3cad4713718f95e6346e1583b7, 0x1d28f305e8b0ec88da37c8251b0c8d230b68bea9401a15f5124d64c5454bc29, 0x1ed301e02e3fc930999fce6d3744c23596700c03720705939d61cee451faff93, 0x2edb1832966e34eaeee0903858afedb13dbba9f7c802c83ee628530d0e26ae1b, 0x123daaddc930c65fc67bc77ca8bf4123fe81fbd0501e8f89ac31a698756d87d9, 0x2bcc36362c90210acf67d5fe21d53104e9d5478d057141d3b17259fed8e4a8fc, 0x1fa928cab5938207e898e61d99c7d616269144f7900815b17095f7ff76e3c9d5, 0x29c2f1cfa72a0fb8f53a631e84cfdf5cc18fb426c254f5a905fd3e831fc7c837, 0x17a732ad13f1b6a1aff42664c390b9017c418210273c7d048bf300aa7be9c65e, 0xc18c6e773ea7eb43b98cac66722de9d135484c6cfa084c2a512ea1977a60268, 0x1954c5c238d8a30c9f1ba4fb963e091acacbc3ed7b498dcf6600f530b6545e49, 0x2591ab77813f34d8a0e0b7b0caacd6ef179dd314597cfde78b74869d74dad600, 0x179db9fb8aab4619e67a6a8667c7b4b32f40ed848d8e33b756c9a794b5932fec, 0x305d014214b4107c11fd83870458738e04fb8dc4e747077c0e462f51d1c59575, 0x298723d70694578fe291635898762bcebca9ac4563b12b90e1fef4f76f9b7bbf, 0x2b336e9b38b504c412a683309ae8024d0802a45d06e649a5e53719aab29a913, 0x8687e699b527b1341f9ab7f17113d9e0eca0443251ef35f0a905704f155d339, 0xa5ff9f7d45b3ca9b79b18d79db4307ee7c4ac4ddea9a8da1a36ab3be057c9bd, 0x20e44747601319223535f4566cdc86ca54324c5657265353add7dbf4f2504656, 0x254dc31e3afd304e85c9ef8fabc1a1cd1a4c7b9bc860ce9ce436c33a202a96d, 0x11cd6492dc520c57dc3e55e33f8a387cbc1eda3a1490b6a4bcebd94e0742cbf0, 0x2f98b10265a30475bb0348d4a787cfb6603119a1a4fe15c36dc986cb4f8c7cf1, 0x153d814e4e55ad782bccef998c974250c073465ef7077550246f69c58ba989fa, 0x4db11a9ea014aed2ed08e46c06306e87131744d65d289e59964f930d13b9ed6, 0xe9a9a6dee9339f5de7135ca3222fd2230c3f3f3e01eedd3633e606aa0b1a1dd, 0xe6d8e464bfcdb8f9ee60fb1f2f33079911e7a073856faee78398811cb976757, 0x237fe2151186437a1cf1901106ae25aac16e9846f9d41fd68796d7a28ed728a, 0x1e3d3d1eea8b7615a9897ef86229776cbda1d848aa5a680935825e73f1f5aa84, 0x9724144c7a4aec0ddcbba9f9a9e9ec9bcdf688ca3f5870f1ee6e174179fb440, 0x11139987e1147467d927db25eec88f0c1e0232e3486cd9a014be3fc8cf066129, 0x1524e5becef72c2697e34c8055ec81974af04912d7ca1df83e65a080ea96269d, 0x64d1299b11b1a6bb50b3e5ac7592a054fd72380afa4c092ce28ec8c31e80c99, 0x12d9fbd27be24eb620b7743cfc5296567cb4804091a1803dd977788a9f588e4c, 0x88d226e69e1b273eba31d4da8576085cc0fd0daae1546bef30079f84b651bc3, 0x15126de187213ebb40dce5da1ab3adc58a3139920c19497c3f47119baa50670f, 0x1169c1fe739bc528eac16a5263d22dee4a66a9961f01eef51684ef792126859d, 0x2a7006c683094f6f84d122ad5774ad2f0c9fa80b6c963e2fa3a1ead3d74f3aaa, 0x2607c22ca9aefe8cdea30fff05b05c4fec7ed8e9302d0f950cd9405ae94bb258, 0x24530b086f441e3834f36c2b11ebc0a809dbdfdd8317a384465931c1c58c2638, 0x6354e02d8c4de97a811481e390c26e5c93fc29a2a1a84824ace50467c9aa652, 0x1f6fbab3e2ea2791c94f5ff43ca128943640692151b295dcf42cac0d8ab0757b, 0x1747ca45b7282ef09928f7649f5cc8337537e2834e6c8905c1ae69008df70bfd, 0x3efd4b9b4d41974e36884e3b1055a705ab4ec3fb1c8e76f82e035991200a633, 0x2d9cd189d47b0b1b32c9a2412db6a59b1b475dc91ebd2d685c96b349c220b4b6, 0x1c9982650aacd1a449ed04605bd65fd75ce393d424c9751814fd03541b4756b, 0x243ffeaa82f3c038481e84b728b459eb221359851ae226c1c6d6a7ba1b1ffdb4, 0x650daafd003bed0bed22bada31bea709491a83b55caff300339885481dc65e8, 0x16d20c619674228b767fc625aac650baae2d0cd15c1f9d0164547082b3099df9, 0x5ee8d5d661d39f15be923fa2944ef2b29da3f4831eb1e4f2f1c1230cf5d149b, 0x23ebc8fc40feec52402e18f881eacebfe441de256273ffe551eee0ed7e4dad73, 0x292bb59e7a6c70116ad7b7e11951c3b8b6b1b130f35bc6c428a9533c003a70e8, 0x133d42d9f83d054db43e4354d1bd7ec3a89b8cf94703fdc12950d9f3c21a63ea, 0x1fd6bed0d347a88e46fcb42f3397aeb0cf07a8e71467e6110b94c90f9323745e, 0x23b091a0c1f0822c8156747a907c8a79b8c1fcab4a3420622511c867f79d776, 0x75fc73bcb6ea2c158e721a9aa6c3f1c4d139b5cf1b752c87d96f44420512eef, 0x17e3bcba0b2d22d27cdabbcb360c8020e56c01c079cb550e3f169fb2a9a451b, 0x194299f0fb7951a80ace994a3ea3123e6e0cb72d5c46fee296ea6f8e73ad1882, 0x6f0e522924a4cf25d9011d477a2746c77e8cc77150b87b42c8c118f1473b514, 0xcc91c18c5fee1b579da0900f04e5a6c36d65f0fc977993203d4b311cbf5d0ef, 0x1abd94c2a5b28e661310e3315b67adbf563fdb06926b6dc4e4d93d04165ed309, 0x24142c9001a7bfff363f3f67f4a2bd128efb72e846e3ba10344ffae655e56f2e, 0x1931b9d4523cb3f78bfbcf6b1dde68c46012aa747dcd7a3af382ed781252e478, 0x2ce3bd1161a012a572836e97ea8f0694f93c952d11fd11a8e8f9a49dff9df85e, 0x15a09fa373041c239e8149657c98b4f3aa30d192c87c03cce47a2b2453d5a48c, 0xb1dc38f74a71b7d909e5ce7fe5601768738417a5786898da316f528998af665, 0x13ea22f9316bb5694d69024fee2cb95ee643c545496df0bd1c25490e34d0f1f6, 0x1ffe58bd14b12b9fafdc365e7081a395a9614e022f7f4d7bc7dfc974b0aad71d, 0x11bab1f186cda03c01e85dfedd40bc5d406e24ca58b305a6257b7c772bce2447, 0x14007eb2d1440b7b8e0936c79672051ae6f5ca9fd4055b417f00c9632abe30ec, 0x1037f0193d40f682ed9623a772de679f0431873e8e0b5004a1f242ac963fee72, 0x20b18be760e87d7c6149b810fe496abf77a0f840ee57ebcfe1cf77236338fabd, 0x1de835e6623f426711276dde7a2a1c20a61b910bf6fdcd33b34368cf96e95a2d, 0x211c38050b07c4a747c5dc44939ce1f76b0820c4b5f07a47e8b10b05e7a99d4f, 0x372fc2cd832015e119c2a12d3622fd7212a4887e4bd1275c205fae2e17f452e, 0x1438dee77b0825cbef6b0f412e9a7277d4e5dc161ce9816f020ae4d1410d0be, 0x7f2ece16c12c9757aaa60953dedd709c513f6f8337e22968a65cd50b0d99211, 0xc57a69d09575d8e1f525e012d73729bc89649b5bc4260d73e4324848452510f, 0x1c8d0a9db77f14f835309f2d3c6821b9921a366468a0d15efb308f57ce658513, 0x169da093e7a5b39bf088277072d4fd58d80215b69ca262cc2d12a5eb30c00b8e, 0x2f3034ab20af0fd83ac60b0236696866f8250bf2d765b10d6da2e3ef1e2d787b, 0xe31b4fa627dd0e5f2dacaf105865a77781543620f3eb28ff7dc102656583073, 0x2a9007126f67e1631d29512f433a6a0bcb8c95a36be164be5fa86be9feb8a594, 0x80af40215b6078be84fb47acd79b59eccefe8a92b6a6033e772c22183bdc0d7, 0xde8a234d208861ebb05ab3812e5c4fdd39e7ada9047c926efb88e1cbf2ebb52, 0x22aaf24c0f1e3f941606a527376ddff91cc6b0adc062efe641f96e3005af3659, 0x1f4f5b7709cf584bf0704861e94234cd8909851e3b212c64a0b3051ffaa2eb66, 0x1296d46427eb2e38816a5e817133565d4f6ded4eb72b5d0ab559bd57667aa2f1, 0x3fa86767c1fa2d7b4eb45b4a255b1298c55d045c69627f5d8adeb9683a129be, 0x8022805abe02bad75306d226478e49d25facfbcaff649364352d4a88d928f38, 0x1d58b33a2a9638ba180cd36029308a2e8be7ed273441d5d280456b2d3b8d8a0a, 0x1f8cae7359c800f307a625b66ff2154c6c4364e85ca8e01911a634aa4ad657a7, 0x39ca66f2fd7f80c17171a4ed8c82ae3c3bf0462d1451a9f5a58748958717bf2, 0x74f7e13e74f2b7b316a3839956f4bf2541eaf2497653b6db1a9335da6c882dc, 0x1f63cf1148c0efa656d5af850cd02a0d879ad7886cfcafe1ec55fe6bf4ad5cb0, 0x1d9bf6ebc0464b9cb47583494a27b45763d7a62296ecca17efbea97356a73e23, 0x76492874603b021892e5c2a03c706979be557fd4ee2e040792da16e28bc8ac6, 0x7012338c5c626e267f76d428388940b900e0085c785166d27b7ec8960825238, 0x9c29059e2013d0ce2cce0b24e3946765a95f040526c3c9224d2801a1bd4ff81, 0x1f2de0350981ab374c9ba7ea1a69d81b287c2c9fad9095205ab21582ba0ea641, 0xc52bab86e259a3bd8c061197028873b801b4c56ea8036ff95a67f434f3b7425, 0x2f262e06178670c4ff861f670c7b51ef9e629213a6422032dfcb26760426a3e5, 0x2af6aa2335400114453435e97010dbe70786a691a5d972ea211af12d4ce384c2, 0x18cad65567f0322fd6f0626cb5caf567a46faa122d30c37380b54b6b5d01ab3e, 0x145667e19067dddbd4269db6ca76d0c0d7e57f1945eea251f8acad86e849858e, 0x2ebaa7e10194cd2957a13d1a358fc93ce54d8bd3dbed06e215b2bf2623b21847, 0x28b85b95982ebc76c4762654f932db031ffd5376a1299b45ba805c4b4e0754d0, 0x17cb0c473841ed2eb1f1a1ddf021b74f73f34172e065b24c9684dd3cffc340a5, 0x24f46ecb8583ca97c5b018736d227fde7c39d1978ca63c97e39ea06588db07b0, 0x274b5c409ea9809bf7f04a7cb5ee4d322d1a95a86c1d0961b15d4a24a7185dec, 0x2cba8960d543fd9846377348ea55b7d042b3348524d76101836646627ded4477, 0x27f02e416dd70b44907f97d7ecb945cebbab1d4dc73c8a18c00cfb1fb2469988, 0x2ab21865691229fa440b6528ad7c39c41693b1b939ec09dbeedf26f37724a151, 0x2910da916e438c04837ce799b81b0e9792c1ead008d92fcf9ca867b165f5e275, 0xf03ce98366111de12ccbe5a1121c9f8309519a7e52300e397d9d90368207afa, 0x236b0371e7ce97213d8aeb6683f02f44044a1fedaca3d151edd3121a44fa19e1, 0x2c50cab6a867b1e801a36ffbcee521b83afbc580be1897dc4c5b6cd5df3b350f, 0xcbf8c8dccd837d1dbac09151e4ee378f93e8548d923d8a49e6df81b9c3f277c, 0x1d18a9fb001245c1a6a17f7cd24ed820b0dbede9ef479830d0ae483346e54be4, 0x1476bb1c30603f7f94493d2e016bee63283b2a7efd999d59090c434c88837ed3, 0x24d565fb578dd252f56a7a0d5d8d4d1c5d727d5234ac4bd9a9600455ccb5ad58, 0xc68e7e9567deab8e8b95051a7788443438e0f5fbe0d7de436fa3cfad596369e, 0x1ce5b25a539d3e1c0c5dcd1ebd0f4ee716840d44c3ae109a669eacddc4a35611, 0x2d3210e66407f6c343eef28fbb7bae59f626db73bec5d9ff06ba9d43ba84e208, 0x118ab3427747ef1a45a609cdf7e7102afae6d411392de254d3b72f1d450ad2f9, 0xb45c70d2856c7e5b3fd6f8f0fde1a7fcb14a2acce4fdddfe50b39fb97423b5d, 0x2ce7c2bad5608153c5d1e40ee17cc33ef1783d9b1cf0153e4a2918894faa46b3, 0x854bd46fef6c2e6480b3b0998215f55f4e090a3e99e03a5a64742f98dce5af8, 0x15c77e7600df711f58f2f0fa88b7d435770104a196076b74e6f5d7a96c8e693d, 0x2a0a3ee38edfda0761bb9b3017924d09309478b167a6099e54d2f5a221724ed8, 0xe8c14fd43b9ace2b7e98e1ac65659cd37f8de94198aee42f5be6659765a4ad9, 0x163276e836c4ee6ab9466613c61fc6924faed9cfdc0a458bc95b59ff381e21e4, 0x23d1584a5cb0b74c00071c687cddacb4a632b104de4159c0e00c5352d078ccfd, 0x15685bc903a1c4c031ce016c093860a2ae2aefabfa47d1f290eb5a628522f5a0, 0x1b33f50e90e90b5dcacb1a158641d63311972457efd9485834b83f0fa04260a5, 0x28380c55cd667894c638647e6aa14b857d3f31c0315ab315d6a9457304f21dc1, 0x29d108541f3b451943eacf723acc6886aab18c8e4485808f4b1e55a73cda6246, 0x1d4c2cba59d5551bc3fe976ae5ac09e5b728d305bbda193afc259c99932f95f0, 0x16a8d69970561003650337aabe5e4e5ddfa4b71c1b9db8cc7b82780359c70d33, 0x289e50c1f0b0bddedc98b7e8a35be62f14f56dd5d7345bfa6ad0d2e43bf92e43, 0xa41765a5352ecbe0b327ca7827a9fc6495e7b6c142dffca003f58383c6dff65, 0x24c0d42378a0c8a613c0402ede6de9bd3527ef2b82ceea6006e7f71bf77666d4, 0x277cae5057d5b5ace72c47e60cc4b8e113ed706b5d91ea4fb9b13fd19fa4d47b, 0xa303567cbf94968090438a23e2fd2ccb8a7f71622bffdc1c1684e8958c3765d, 0x1f7ed8c267a29a69d9450dc74afaf768a884e42c37e0e6fb4d4385cb027ab949, 0x86c4b8301656b6acb8a735019556a278a60313040f236e815fd22e8473bbc65, 0x27b63fbc29594760dbffef8d30fef49afefddf1504bd487fd6282d9e3d6e3337, 0xb9c0a45621716f9849af8a3c9075b7ab839c282881ede8b0e5a9e723766d70, 0x1b5ba2fbced922c3796d57b4962fd253f5ab6e2b91355d2c0a8d226040652395, 0x2e1ad57ebdf932603f51bb1ddab204dc026e13dc4986791f54c4030cac6f1938, 0x2f865e1df1169a35771f617046485f8fb17afde3b2b97d1eafafbd1862ac6e16, 0x62ace5be380c5e4361b209b80befdcad052146b869d50dd58085ea65d9d141, 0x2dbcbb1b4ea08e3769844bed522b92ee01fecd5b3f2379c24b45d59842536337, 0x1ce3d90034dfda11e9bf7d92b65f810483c48b26cca092747b4ceaf07c7ba847, 0x86583a59497474b0d1eb0c3cec4f1df596aef3db638fee1895d3f5a5845252c, 0x2b984d5c91b7b320f7f297bddd68789ef6ca88cfed3957d2c5e8a6fc0e78d76c, 0x8edeaf9ddcd25a730751b32cd43c630da831101eb310399356e4b52df11fc28, 0x28df39cc7f96672569cf86ee373623da9f1c58ff1fd66d930cc234a7e959c41f, 0x15af6a84c6b142eacc58137fb371799bf3aff1780455c32d8d3598cfb91b24df, 0x19cf0dca22781a9bd56173491ebebd18ec8446d6717563bd3a80cc52a1be6961, 0x4e0e0b52923bff8b67b1210f23a11277337996ce50180eba97775618b003558, 0x15ab0a5fda2b5191cc2bd0485a30c2e75b540bc397c3436d2e64b6a2da9ac49e, 0x18e83f7a6bbf457fde7b8ba4fc53ad4810ee071941969f87b62b6c6ea8f55ef, 0x171b0539cf1d6e8519789fbeb31292b6be60c3f93e2b45309ab559a854e63355, 0x2ea76a14e0d177f355f681c822de2b37142ae6e93712492265d2992473da1021, 0x144292627b643b5180c710eba6d74a076cda5d3ff836576e983da9b7d93564b3, 0x7ad2bf37ce1ef4a8fac5b44305f1a5d2127d8c6ff173ec42f0e421ea53f7c1c, 0x55514dc9b01480ae57ba24fd5dd12f229bb5597edcffca145156af3324b0d84, 0xb05a45bb9377e1597507fde0dbbfa2d642f6c358e233ecb8ed7e575ec6a34a5, 0x198b369f024a0561af9ad7a0cf7ac107042b42f9301bafe2e1b4c2ad9e46fa86, 0x253f82b21addaa86724677bad4a4c464ac5ec75c78755fbec6f46d9ef73c2f04, 0xef256e9d5e9e3da1f56d7d2115fdf10ed7674e3cecbcc9cdbcb46c7cfbc7429, 0x2d8926570b080260164e6b66afafbad3d925a464e995d7a1d02f90c7264f7b38, 0x19ce4c36c51210787f71cbb080cc340f2fb732cc191618d525400b2fdc516896, 0x59df907c9fe5249d484183f2e89f102e1f9978585c88b57b9a87e8d8cdfc6cb, 0x2afc27a41832e0bd3bd8e947284d9acd1ac7050295b388b6b5cc3179a842f803, 0x6e960a5b2385417429dfa89cd14d7787c0778e4c5421dba2eba694b0854a21b, 0x1e8b790ca2d081624486acfd613245efd710e7a7a908a233ec5afe1148476098, 0x2f68d78df4e08b23c96fa9597ab7ba5a1785329a370053300d792a0421cf3ae9, 0xa2e82f0c2f9e345689b2f2da2108d018cce3084ee85dc83d57937facf3e56c3, 0x108b2af65d8a2b8ef81434d73646cff6c25fe8ebb88bb768dc435caa19143111, 0xc2f90eb77fb2855d39b745a85d3c960c3d0c1ee740d8777971c936ddce26601, 0x3daddc5903de3d5302c7a07d4c546039fa84c3da6cf4eac9c2b9cbc94db005c, 0x10f4d48188805d3126738d24976ef4c80596b3c6380effb23cb3b3eac954134, 0x6701317708659ce74515f62f9128ea9a1cff2796e18eb9eafe9c2ec4f9e4280, 0x2dd0349f0f0ef52d77602037a211e5c565e0091e01072ef08630056d907fc6d9, 0x1b15957d8c8774076df16d49d788b11a5ad4690cbd8022437f402a6b25eb5436, 0x2a92a1f50c4658b687f2b6c8afb5323c9b8e3dd17fdcd5c40e17db738a27592, 0xd4cb316f072fc8e2463a4a42d168d6dc04e0b137fa4b57216d1f2ba5e64ad56, 0x1cf0f9bf90e207f3a0aa5fc108538c641c40e0952c6f66e6024fadbd2248e16c, 0xb81c03e6806a49a8a5edfc3db4bf78fd4beb80674d0c88dddeef543d3600ae8, 0x1dbd32d049764d6ab6f677b89c408f9f4d3f29b5a18148cc8d5740e48ecc9d35, 0x16d52bbf838448b0e44c2bf05229c3f741b966790438a2997be9cc660103ad90, 0x2c8ef880d5788e5359b97d1be554305e0cf5bd55c293991281bfe5401b9e35de, 0x1f007ef167c9b99e948007dd8060857192b9dc992127c235aec46a2b323f2f11, 0xcd33683ec08207c56a80210d9929731d2035264394841b2b6f65c61519cd842, 0xaf1b0f70f93bb8f5377db6517c4482ac93ddfaf6051e68fe739f161b4380fd9, 0x24d03d522118e544c04d49d38affea789e49d2eb2fddd171613e69f4eb07bb40, 0x2f1f0e4bf9adcd2a4f1aee5cef4c2d3f27c9b4824796953025027a37942428eb, 0x248a412f287cd3b3448930a1039ab32281958f99a2eec0c2f1a52a65b3e589b6, 0x21e374b45da55c1d3d89c6d2173e11469992b81beb2d3d4cd4d16038dcbab231, 0x1c2f85c42f6a331092ca033b4ae06ab667cd8abef24b5458eb10e53346694a65, 0x29eb555ddd4c74ab9031084127bfc25036f177be8ed62d32ed35973d3de94e76, 0x7d30101df711f25364a955a7002fe48f47ec0a7c0acd54ba0cb551c912ec6e3, 0x2afaedc7a657941c9e77e728f202d568e4ad1230f91d369a961b4dcd4e15a36f, 0x2daf426a65d37cc81125c3d1cca527cb29e9451be0a5acb7e4fc81b2afae5a83, 0xc774e81279520eeca70f8a7b3d7799bdee8371a9fcf902d43533e649c7bf48d, 0x308212a0a56cac99561515c83f01dc3684be8a37a25197b467acdd367ee030b, 0x20fa9447e92e4f68025e1bec51f115fb653235aba484fa0dab9cac4aa744d295, 0x2f4f647ef450cdc4b3954ad14c7cb1c3e08d140549bc36c82f739293ce8b6245, 0x25a6d02422b9e00b1ca5e1156b87b4cdda56cbbb341f82b4a63ecd41afc79bd8, 0x565834c7cf03c8e542f1c3288006ba9f35c56c95470bb86b9668d0063d095cc, 0x24a6f88d5d7090b24a151c68aede9f347fedffaa584aa431b2d0e90da3cd4fbd, 0x14b0d44ddf5cea576cb82d399c8e4a53e78225b646d25c97b504e63dba4ccea, 0x251d320b7603c1c86b6102493219cb1f737e4ff9b84cef7050e37456e8f03acf, 0x238c2bec6cfad388d477c55c0ddeab2d3268155f3363bcdefd3cd8ae5f63766b, 0x1337d778bf0f0bc001ad9dbf9999379cc08de0ed567568448ca3c0c3555da9da, 0x269ae35f7eb384ad1965b82f8c9e8b4f65d3cecfd767ed4408a025ac7ba97448, 0x2b01d8797cfb9616e3471921b610dc78c64ae9ab2fe48701baee5e7853ea1891, 0x1acc5f89dfc24a03458156ff7b156b22f4270746900d71368b1e8afe9a684cd2, 0xa66d6f919f7dce7144ec8f66cece8dbedc62327e0407abdc7bd71060f8d5b78, 0x17978e79a55cc077d4bc92b38ee5d357ab4a6c62146b2a84acd9af50954e8ca8, 0x11cbbbe66bb4d957813408009843b2c96cd7b02fd4b449db1895c833a64ad04f, 0xbc7843529e13dbe304210922ae9515a2f8148eaf5e83bd0686112dc646fc93a, 0x23d644fab01d806361de665c8bc6e972d9658d29a35e96208bf53f8fb4ca770c, 0x48371c6200b923b1a0ad3f008310dbc350e1e3c470d24d3ad23eb41e3d93b3c, 0x21207b1d47a4bac52ba3ae9078c265e5cd3b11a126547f2144e501c18a656f66, 0x1ab86eda61a6bc9606e65f455c3c48d4136b03d8cdce695e750c257104564704, 0x471b41c6418b6afadf0c9517369b01f62ba78d561941c4beaa1de9827676444, 0x1f67ab3d71646c039ce09ee72320b2ad755ffbd7187eb43d5ae0850c923ce6fc, 0x1d78da55a4c0c3fd78ef34b4316eddd7f36d5d8db6551bcdbc836ba7197daff9, 0x14b37257c1f8852aed448036afe59b3a12159b89afa5e2ecb35063aa91c3b791, 0xb904b1e068cb7712bb63b1721dbf5adf5b6717e6b0deaefff1f2a988b3a5a1, 0x2fc100ecb79693aea91c6118b70209fb445c5feae4f6d1c5886018a0efe4a8d0, 0xa9d77bc8f430233b59f6737b9c0197aece2939a3b63c5ac24cad31bcc70074b, 0x1f4bdc685882ae1149affc74fa1e4ca614cd9499d75027a6ca7200000a539b9c, 0xdd11b1befe293110cc4f6b5c0de6fae3a67edac4e84b238facb8a445fb73fd3, 0x21012864a44b6479d44bdb1e2e97764067df69e076d1e1c310de929bcc1ebbb5, 0x142cea93e5949c06c37dac88b664ed36a8bfe1abccb4b3145d0087410a5cf8fe, 0x25d074e31dd093d43fa3a3a6b5c044177d43ce7739acb9e5818ae8339e9335e3, 0x152368e8dd72e9bd3f00fa47ad0197096599bb5ba3f63401ae9b3689f5afb943, 0x224450a6f24dd8427d8d6f9dd985630313eca57d57479ec98ed3eebe3a23e50d, 0x8ee8bed1a5338113308a32cf4b8f0a42b9c122cb8ea937cdc1e31878554c81b, 0x68471f745758670cada7f230140e09acb0acfc237cf7f31e063553bab156dd5, 0x17dceed9a861ada2970318ff8b9dc13074a1113f3076ed7ddee67845662d5594, 0x21c951b2849f51336da12e1930cbb2cd407c5ca0bdf9cf6e2ee88a8e6cf36e1c, 0xaeb15bdd33d09c780eb1ab6848dcbc1a18a5c6a1f250cee87cf506d46c36e36, 0x37e66e0bf7b7c7f7b00bb5c067215562220044c94bf788c40b4806fe86a08eb, 0x2705d297db4ab693a65d4cc73ed80ceac3a6e10d57123701a52769095647bb00, 0xdf821b1a387e78f8e2388cae0294e88d0c2dff811425a940a60e0285a71b3c3, 0x2959ffca94642766a46cd8340db08ec9ada915d23540688ad1f25e34a9ae3afe, 0xe86b8655306bbde01748175b56e66ca36410f758e1bc02473e4255d88120a43, 0x8f94dc12076e1bd3900705e880245a6149ed38f87baffda0a6f4b14264b5fcf, 0x2968e4762ea9e6ee5013d96babb250d95f300fd80d86d22cc095de9514590506, 0x1556c2665a0e74cc056fd454a85a3fbecb57a23a879dc1cc95b98d9bc497018e, 0xce86a48c05d429be480b9cbcc220f3a29c6ec865bed10a07835c6fe6bee34e1, 0x21e6b5e9a5a5c57156dfb8cf5a8785d2117599c247af6feb577bb44e7524534e, 0x444c6559f15a5d6f3781bc392e88e8ac582e487d60de12cdbc357c9623e4ac4, 0x17cdb083db2171c7621198f51b7d189117ab80e4aaab817656342e1b0b3dc1f4, 0xc4fcd32fbbbcfb27be41a9492ec55425969c9142f365351c7d23478fd68b3f4, 0x37a47a18dea6fc765e6ce6ce7bd59e3d1103ab69cbf9206d1c2ff4ec0389576, 0x2c14bab17a78ba001537e37a630357abe06ecbdbd2af7424ce1225d4a4414b5a, 0x10bd8cfbacd505ffd57a2bfaa757ad3e45f63ef37e67dd541ef07e957984e7f9, 0xf2a0b6a66486b55fd8273a453ef622f4c1d4e3d975c34d538cbd8440a3ce9c8, 0x297b4eb48434dc5342e4c9a262c200331480a02109163863805bb70fc7a92614, 0x22cd3cc552b8310954b62b62d4f7a91864e6b6cf79f55f244d384804946a77b4, 0x5cf496eadc8ea0ccb36502f443c99b347bf7023f2d7fbce512e1c58045fbb2a, 0x1e0ae8b082d3726190a6878f4b8889e0b6297d27de3f183aa9a9f2cb2abb90d4, 0x2b282ffef89e1c3a90c359bc7c80133b9f634215c30c1db82a095012793c7c1b, 0x13bae7e838c638a41a9961ab81520f408c9921070d9a02a7fe5bfd1da1dadc4c, 0xcdc320eead70bf0db57965b29f9cca28826f6c44d824f7f122e430aa4e746cd, 0x1b94ed891e3a73e1bcd6b7a9fa336b485a5a83e52d5db08b704afd8d48136657, 0x2e8d765a70fd39533f1c456db12b420cac0d7b086bf19596c60cd6406b076c67, 0x2f69220fd9209bb41b0ef942bfeb31137088ff9a338ed283de9ec3a8850e96be, 0x1506e9fdec14a9dc03eb159d011f0baba652db364b0020f3485da40ef8079ebf, 0x2e43093a060a595dc13213ae7211c041b29d39401dbbd4e7fcb0341914492a08, 0x17426eb02415f1d682735382450efc76a05c6a0218671ec4fa3ef2d03980db21, 0x22a8a8f47529433cb471acbbceda9b6dd4e9e57121745b86577da8d106171e3d, 0x10d066af04e7708e512a382310bd9a10cbad751a721c660ed0f807f1693d6826, 0x1322cabd21b8f9826da84816f3599f20a3324bf47b44abeca3d8e6a26bf64c8f, 0xe9033298b7fba81069ad708a401ccaca713c122a7907b9d2eec39ec1e5834d3, 0x277a069d3fc5701249012a0fc2d96d70c58b8f0bb45a1d3932051d4541c9be8b, 0x2b6a4d2b44646516e0511d03595b94f5f31b538c8445562a5f787cb7916238de, 0x1e9b7e897f636c286ac7592181135b3061cf02de5eb4c3344f2b3246f17459d9, 0x89d5576bf0677940ec8531e33761650a38edae669b73ee5f704c018310458bd, 0x11d91cb6a7c91f3a3778a457bfbcba977b28eb08b850e47260dbb3d205ada63e, 0x79ebc334aa377cdaf2bb057017b776ad150adeb27ad95031c1e6d6e4585b9a1, 0xeeceb66fbafe2552212467fbd7ee2c535244642c87c54efaed43be19344eefa, 0x1189bb18157591e582637275139eff1ff180217439babf0369a7d6afda53af00, 0xa104e1bc5aef5ba3362773b15d152a34bb66fcad5169061e4c74f42f8082ed4, 0x12aeabc55f0a0a7394844072432e9f1095a79e2a7b8765c0e7f93721f5eb8feb, 0x2d5fa7e448eba0f3f75b82d155d2bfb467c11361536d61cfac1e9eaebf9f9960, 0x11bc382ad6f3998ae12761764e273e8e57de5244008964ddc1ce7d887b3ea15d, 0x2f9de52e1164d578244301dc0f52c09dcfb7b12499ad768a4c91af37f1fe999f, 0x24a160dd3b3f19071f231118426515e7f75fd3fd4d98479d855e88cc40f2a146, 0x2562dab01972dcd2307417f8356cb096e5a52b39898d7700c9082fe661ab5aa7, 0xc71fc8544d8bfe1eb57eb8b19344825f2800e7728874c0d4aeee09d37fc8018, 0x1c38cee709ea57a5433ef05d4f3d8fe85d27595ab5f3bd5b1e818a76b17edc8b, 0x1602213816c60cc200e8b2aee509da4de8952ca6f775f6951aa176a6cc78d10a, 0x9a046c67b9802554d315821da1c3d1338311acaa29182226455685b3a6a1a04, 0xa2ac73a3b40f2e8d93b888e15ad9695a07d56f02d172fafdc326e99ed94475f, 0x26497f1cb3ed83f61c32795f5460e2320a0b056117fe2d4868bfcb691acc9d23, 0x1b1a886b957b5b7af3608333c34da124c68e137697ee082e21d6e9f534adda3e, 0x1a1cec97b3e63763610f3fee9e5f884313d66f3fda193985ffffa26388a8b536, 0x24eb5865c2393f7e9d6da7a0460f9fe0a1112c41137007f71ffc53e90fd2cd5e, 0x5ad739f4ae7385d18ae961990fdb8ed3e808de0108cae743d7995a23239bfed, 0x20ea4df643c31b3aec0c8c2cb444ffec0f2351841827a82103a36fef81c2b5a3, 0x7e426d7cfb8d0ed8f150d76e11c42bd7d0d0be868f7cc80740d14d6b6d985e3, 0xc284170139a3d32feb893e2e393be22fc5712b4b134e117c9cbf91c06c7a156, 0x198e892e0b6e96942779fc23ac86ed3eaf5c68c79f8f881338ddfb381bcab3ec, 0x4f7274b4c460cc0d5d78d6391700ab706b188d6a4cbcbdcc6ca631c617a4146, 0x257a207c9af017f50c24c8286e99a006f5a9a066997fea4d63cbc4479d153cfe, 0x2f9195e87792cede31f827dd408160697c174a84a9cdd07cd69b4443a45f0c81, 0x2c32457f1c8a48108f1c16491e8da1e74ae1fb598642acebb76d0210d0af7df, 0xd16062ea9a5b5184ae022c568e887e2fd31c2d2f1320acd915b84df1cd77c3d, 0x273821b59fc23f585f423e16c5d9571e78b428e446adaae789c159866c15a9aa, 0x28d58138ca8e1e1f410146ec8401796f7cabf49d41e59f4b8ae942dc6fe0ac32, 0xcbbab4a22963ed50150ae37e8ae9cc139355f83de4f38f01179735633ae3f85, 0x2f29b839fb5759272d1519a17df03310eb9afab12540693b781c9397c0da489c, 0x212505f1db73adadfdea6353b38b8574fd52de8ab3cbe3310f5262a9496a575e, 0x511717ed104198d0b67387b576b020b6b645d94f205f7005ebb04161ea0959c, 0x2cd17a3fdff1b2ee153b65554fc06a4edab7cb2d870c1cdac0e9651c21593d80, 0x2421eced65e40f5bd7b7ce147ab0845888853ce9d9e90242ef0ecbe4df94f4a9, 0x2b7bb1c13a605e06226271b1567d8070576b71fbcfbe0e8a0ce6ed9a60be4b60, 0x20de93b09b10f6f40d2960f3ae7f703d4aff7d4e2a309481635693fc1e7b57cb, 0x15f39da6947d0700036090111b9463cd322712f5fc0db38a8098abd4d3fded43, 0x55a10c5b2e1c3d3ac97853d37acc7ac3201c3f69ba770c90736e59910299486, 0xf86f85857f2f3bfa5fa407678359c5e4bd7f68e4f8e4af22314df5ea170cb05, 0x2d57680dee104eb6887c77345eca7a8c131022a4471f88c54d4db9bf7a18f475, 0x1d25e7170e6b92b2bbcefed98f7ccf94c20b97a546408d962e48f6adfdeed55, 0x11dde898034df5d0a50a1067fe3a5b6e9d546b4268043f5998befca980271e07, 0xd96e451da1d5351d3848643cd82ac82a91d297dba610e196992d08045efc565, 0x1ec50e2f05af8bd16955612b7dd0a22ae046db692a340f0b814b472cebefc7f9, 0x12e7a565e645e185f7c9e00f06ade71736d990052e72c97540d79391224c82a5, 0x277d5ebf33d14750cec8a5df484fcdb392db7981559aa350e2ba70b3565632ae, 0x227a8c5c6b1f1a259d5fceb57d7dc834257317a8c1b94209c3fb86fd94846a89, 0x2bcc414a720c85a42f6ed14bf7d1e2ca7d3aa5f7d61c4ff5d1bd1eedcec09f7f, 0x1f7864a729e70f77cc1b5cd86c193cbaa9410070863d5da37742d665e2de3188, 0x2add533a1c14b4ad2a4ecd780397391ac9d9ac8068584c3ae69f56a9e4d72ebe, 0x16198d9581405334a13e109b04d9d1f5638a7df278300e56059508f6ef65460d, 0xa060a2599eb696b43d275c43eab0b3b04b461cc4c436cfe8b1748d65d143379, 0x302e7b6c0abbf4f44b1d799791ae0cc857007b28a3748798965cb4b281822b3a, 0x2b8971547ff17281a93943ddecb489f6c091e96ce505b7ba30c148e036b30963, 0x21f67c406780578d1e13c001eb36a4dc2b5624dc3f12b3e4a6a02570b3e84cd8, 0xcaeb5041b8532a723d9c68a990c083909ab94da865e673120f48846ac77bfb6, 0xd576a5ddac69399f06fd5e247417ddb73fb47b533400bc79a35e18f0a51ad86, 0x6dcc4d20da7204e7e8acb7404b6b719cd1536af3616e994887b033125614d53, 0xd0ae80d2c03d27ef6d6ac6edd57faafb88adb18cb43cb3a34052c92a8a0d6b5, 0x2217b24cd9e573c8fcba46d3046d830ccfdbe8f69e43eee315664c465fb6b5a, 0x1b037d4657b2b3c4136ff83f2de746a1f314dca33ee2b92a806636e8509694cd, 0x2be7d85266892fa4d49762ce64ef84575fa3bb6212df994ba9fbd4e2c3591f45, 0x2c2ec68b3fdbe4b10ca34ad1f1c9ee5296e4e418132bfd82fcbaf437210dd417, 0x356ae0ee778d427d6a84545bf241a684fd562dea92cd30b0b75bd9a7880fcf6, 0xea67bcd02a935ed5631194f06968434fc9822df791ff6f6ad6c402a0beaf184, 0x188bba4674c2e1a2b8d1f1db4c2b3de7ac2f572e984804acd579f3c22e0e4ce8, 0xd821e605046e0b7efc627e1f2dd84177a66e62974bb7bd3ca79e142f70742ef, 0x19bbb44064dac933d1074ebeab991790c637a4a34c33d1c9ca0ecc9559808659, 0xb3f351b3bccd96bbca3453bab6d10bf252380a1e3b3ac2867b214d063b02d4d, 0x1f657838a4ddf2b0639961c92619eeaf6560243c0115152587fa3b633bc7b14c, 0x173966b03236c921b1b6e4e4e77fba43903f2b68bf83ffd2b00b2974cc4f4c24, 0x255adfccf4dacfd943393fd90822fb3e92292b150ae2205f9ee3b6837c687c94, 0x2ad9b647fa2c5d97d6411a5684ef18312cedf6f69fdef8f68afe434442487a2a, 0x26c815af9baeadf098c8be65a9b66936d88a90f47c878e46d55aa41fb23a00f8, 0x215300316d98fb3bc220cd379cbcf4b54133e613ba42fa8b48984667efae1053, 0x51ac2e037a8cb84449738040cb5d92bec1ebf64e1a65138c7f2d862aafbbbea, 0x1b0cfa4c9f7b4aec9c6a709a106d177fad8ffc6ac364914aabf33627d1de6a32, 0x84f5b80cd3806bfd40f7d188bde0f5526dec4a77bca0449f1101f00aad4a4d, 0x2fd6803e516e8737c45bf2f40736831ebed2b6e7e7e643e0d4c67b5e51099d17, 0xb17f732c6d938ac7e85bccf9a8dd401272d7d6d623a8e59ec3ea67e2aaa526c, 0x1b3fb88f6cab80f3af974dd496c9fa5f905da9a079017bc5299080e1d5d4f64, 0x2319f57279981d0a12b06f2f7541826affc4e51a44e1990fb3015ddf9a183715, 0x2f4dc289b5e7f23a370b0f61053bd82fe4cbfc7d1d11d13f289efba3a3c54121, 0x1b679b734eabbe6f8c42ad18dab54de081c89d68c708a81f8fe61438904c2ab6, 0xa3453c08842ef3080b3af74ee8e799bfa236790cfda0023b588eca466f19216, 0x11c89d2f5498a788416d0042cefa0d5442dbe55f21226095045168139344f0a2, 0xb3f2c98ca3061f627213760506fe76ffdd88ee755643788837c18dbffb68ce1, 0x2575c71fb8acabc5cb513bf66dbd4a4946f4e21a7b2f1a4062972a08425a03b4, 0x1dec0944dfddc9cffbb55c1902f845725cb92e09545749de3f1a118d41801560, 0x2532b96a8b50828cc619ddce80a2e9930dd8dec6588f52ed5c3e1980ee030642, 0xeb3e072e9fc2bea9aea03cf45eb481c4e6bd67091f59ffa1f4602fc399f21b, 0x28a6e7466dab1f493bfca1991bfb886c2ef920770accabec486b96422698612c, 0x18b72ad6c372bb8b3b52ceb5c65e9d78c04814e3713baa81323f2a1956957b8f, 0x2fa98e48794fdd4cdba8e11d0cde18ce5b2cc9d0db7f65aa1b6c8609918b2c63, 0x22d6d05abbab403b1327edce33024fc9183aa514f69d1672d49ddbfc9e063f7, 0x22ce0a2387a223228a0a86b942f135a59d6bbee9f1b96d3fb3a151023a67fb73, 0xa559e751dfe1415e40d0227d7b3dd1f188d99d935596d3dec2c033de5a22d2f, 0x13202360f125ca22c281a18e21a7ac10b196153236f86c5968b31ab50c282056, 0x1e85baa376985015ba63c3a38e7817ab0a39cd28e237233f4c1be35632fc72d4, 0x2450b198b045e4f0cd540b0b74de5ca56d85da5fe59816af30806dd2e036c5cc, 0x1bf04795a7979533886f7fb47d5a0b7edd2edcc1091255aacb96efaac6712b6e, 0xf126ed9490b69935be97110c476118d00c8b07c586ba04cf81ae699607e62ef, 0x87ed4752046c22599473251c53f69b817b08a90f431417d9bce87ce4fd2bc0a, 0x15185030c12d8cca42f20872de699989901e25569863a4b5b3fa2682dbf9cc, 0x1b424b9546d87ee6ca28fb8197a2186b6e001556b08e19002298e05f1664dc84, 0x214ba23a67a222ae9e33b4615a31e7b09fa911e18880bc379dfd20ed1177eb2e, 0x186e0edc096c6253b179102a7c9ee1496ddb6060c993fa9e83616a7daa6c2243, 0x151bc9534ec5f36cbacdd7bdf6176a60c9bb7b6cfb26859c7bcc0d1f7bc4dd0f, 0x28192f62ad97323e6cadfcbb9a99f5bada68adddbac3a4ddc18e69b95239b166, 0x825b1232e6831678f691e7e1eb27888439e12e7baff84db3d18b7bd45172b18, 0x99e93500b62b10127609071e75f4c54cad78732b48596d16b44eae459a59fc7, 0xdd5cd3a64731f803da7873057eb0a49a2ac15bd7057485b43d47340a202abba, 0x1d4cf162651067f82fc2124f6d674daef03adc3da75822bed2b0d8b690b6a34a, 0x23a86b440d5efbb0a26a76a9993b6ec01c33b46924c3f601ed79a87f9c464068, 0x2c983302ac40a26cbb323eca868e9a757e2a66053bb081bca55f55635168884e, 0x6e98d3bafbdb42dbd2ea2fcb9698273980bd1c808f1f7de799632a90ff09b36, 0xf2ebb91192276ca7521084cff7a025fe53e14eb884989381d79c06f9fa9084a, 0xb67885ad9dfdac5f5369f6e3181bcc79081981eb6177db27e5d6f6d851d5021, 0x1c32e21095beb791e1bc785043bb33cd94784b6231ff8f85a9edff92f91be4b8, 0x121818dfa76d98589c3274fe2d702da83ad88ced9df449626506be1eeef83264, 0x2832ac9bb20b57ecc969ba4ff5c713c40622fa6b4ebed066c655be21da02410a, 0x917180fbd7a19816e8fc3a45fd43b435bac6b2de19f516b37641a6b1c423434, 0x1bd85f4c4b11ae715f45a17ba21ddbdc7d1c3ba680fb978a1b2ac325bed411a7, 0xd0f2a86fb0d48dea88049d2bcb667030a29d721e4c1776d42d783bbcfd22af1, 0x460af88f6d11afb5d191e488712fd79cb96116844491b4277ac0b5ef19b4432, 0xbc1783c36accadd4fba3d634e9f72c5e9025f7784bd3efb8dc72096e2c56032, 0xeefb878f6eb1589d7a687e94813d9d8423fa50db34de8d5ebaac1302e6f45d6, 0x1ac403196501f0054fa8d4b566cffdb7f81f429538db9b408a3dc20b92c11d5, 0x1d5bdde7d64a63bacc2585b8a14082d8d35f3ba8c1e857df1f729c52e6a7e5dc, 0x799dfaff2e7d630414a7ddb0fdeea103e1bc3ceaf3ccce077c8733869e52b75, 0xfe0f816efd74a7eba5c8dd5e7a8943889962492f14353e1afc78efac50ed96e, 0x72561c67ad2fc0793821b50518d4b5d8ac33af26da6d2ce77cebf80292bd27e, 0x2891352ac60ffb09e9c88660b8449def9986f9463f5a81c615a7cb9f4be0724b, 0x206e9efcc46cae2cfc7e866cada0a4c72c29f235f044d56c8244a92e882f464b, 0x2e7c4493e77005f49407f2d5cb46cdd6d04f22a061ac8fcae04d2d93d7c8dfd2, 0xb9e944d5bacd889beef5909a139f5e7b7f23a1ce7a1e55a6c4b9c382a511524, 0x2635b8471126523448d0b1bce5d8f54ff5bc988a0a6fe53dca721304f8f622cb, 0x10df73bfddab994cdc079216cb585ea8530c13da58d6381ae0c517f2ddc88e02, 0x2da54f7a7bfd78f40c98e6ecadb665f2644b0a9539b27765df23eba241fffd7a, 0x19ce35c6a104ee3975d4a94908f5b1e0444d7709bda7c5fc59a527cb2c166509, 0x1a47dbbde2d5004a1be0ed7c21f57a388a1c86f8b4666d4d118ee99abc115a3d, 0x2f037e73c7888cef9d7046e58d9988837be8faca34c58bc50f021e8734c5399f, 0x27ab727198d9b7a62e0d99b2d1112710102464c3f5fa8deff2762af8a8699e7c, 0x301176359be9b665abc8dda6783d3bd7730c4b4936a1bd83cc5574c694080668, 0x30e87204cce403ee4e92e0507e8e99cae309599dce18929a9430100fc5c0869, 0x218e8653761694cf49a1f3e275ece28866a6e9963c3ee6eea46c2b193688d3b1, 0x2b219687a4549eb17e29db9fccb5796a11ddb6fb271b5a547946f0de32698a36, 0x221e784939d29eb5442fd1612b30a58b9e555a398bae96d6a2d6d9a616ece0ab, 0x80fbdb9bc4b4e8a83b2ad89383b25526e330678c057f7c34993f27eed2e14c4, 0x1601e657a22b8a280d4452d527beccfdb9d8c3edfcb7bd0372d0df43e93e9123, 0x652d1d878dad9d7f854e48066531fffd4773e8a5c61301f581651b50e359751, 0x10db881688e3db58bb608ec993d36ec8531ad3ab580e65d537f4f37e4da26027, 0x1d8a06b51927f0379250e7359f9dab93aa9ccfaf764dd70acccec7177a4c7037, 0x19cbc2ea50b7bfbf009f709d159aa9ef2a2c0f68a5cbad1f5e1c99ea2ca2623f, 0x1a5279e38883b53f313f86ae7ebb07d7bb0cd658be590aa3ac3b413415fe3e8e, 0x1af136d53cdf676c284100705d04a976645234f4397140fd85a2d88a484eab0b, 0xdb8af764eef50bb1ddccfe0583ff730088f3e9c2c555278a3c9a7376a893232, 0x1613c14bc86f95e25e05f8ec72c8ff6aa207bdbaa33f912808ac693f137d5d51, 0xfc47ef92f10f79d336550ab3e0a7545c74d2d3e2b9f97bcc43e4783d1d98cf9, 0xf2cbf40b344707cce101e7797d137a9e8b011797c66fe6fb0474d2b711241db, 0x2efd5777f8ca22678839ac60c1a308703094a9d2be4413c817c751dcf56d8e1c, 0x2ab4e3413795ad9a695b04695db31b6b0ad0bed91bfc33739265bbdc2805b180, 0x2e3b6d8584e42666829c0e195571c50d7fa7bfacec12bad7afa242744e00c039, 0x1833f151de5bd86ca68d264d5de5d353b8128a96e3813ed2cd00e322dc91c8d6, 0xea82c252d8d55499ad63c61c47419c8e8e423257732f9f686f6b106d7daf0ea, 0x9857874422693705a7c9806340c6da0777f4571e92174d5f82c07b91f2c85be, 0x2772ac7928af0a79931f88a87e634dd61facccf610cb947724e7a2110d501449, 0x2e62239b790530756ca329c63e6f4338e2631ef4e2cc67e8046fe2e886f6769a, 0x265bef6b92cd962298621e2609c90162dd587f88139bc60d74bf363c6712628, 0x24484c0c291379917d2fd8b48439fb3d70b05b155e8bcf330a56b5027cfdbc30, 0x2b2d449a3ab55ab7ee77d37759db58adbc91d0d50936538cfb0173360a2bd8cf, 0x23663d1956fcf1a723085825cc67cac82d3ebbfd0134f861ab5529e2a4c7de57, 0x28fcaec0fb6cf43a573261d10ed32c1dbb4b9975643fade00532c1bd1ea0e411, 0x145c6e2418185a9ebc72cd8dd0f53dc537851eb5a42eddc04caa52cb3ae8abd, 0x167376a042099efae1cd8988e02c66e8cfda378faa64e85626bfe4636f3c580a, 0xcb735de0e612a615759528eb278b1b34107c4a8df58ea674ee7fb719d0dab99, 0x2d67bac6616cc0464d4fe907e5f68f0eced070b8811be72905bf7758f3ebe884, 0xdbd2a2f8d7fbf3ac403b1115523112b7f010a0adf6ca584d7ae03f947d216b, 0x11a992d7e8205757ae36bbabb544e843b010fddc7bd5abaa82dfddcab3f85c7a, 0x230d34341246fb715b784797e9dd8bb7307a4c46e2f4470d2c319340fdbe0025, 0x9feeffc218aafa614e8fb7dc4ec786ed25150ec1d3507b3a7170b9266ff6941, 0x1208ff94f1223bd249daa4e3a0266e079731f7c3f998b7fa707dd9fe53833f82, 0x260ca3cc820f873963cd26df1b8ffec4cf349fabe16e81f2f973663466802da9, 0x12655e2c98ad35ec444a134e55cf68dcde68f14a7b734b3834725308609bc854, 0x290097f2c047a3dd6600b706377d0e1c46145f3a9e9e0ba6d7ccdaf7b7e05ef9, 0x2c62e5bd65381e0972414ce0090a96c22b0555bf7ef8b2aeae1b984808d4f81, 0x233c642308dbf783701420788b19153dcf088a63e8da765c5182649424926fbb, 0x2b7328e368ed4b7a62fedb9cbf50104557b6c3d9be5d0c2745bcc76476f8ce50, 0x1738ea94cd4331c7b609f42f27c4dd57d8db78b70a95da0c2394c4ef18992855, 0x2e902d182a1fe1f3d40da28c358c7e89076d2ddadef80e31b9895eed02ca21b8, 0x1683ff7e84a5a4f1dacb206fc44fc92179e666450c5a65f54354bbe8676f585d, 0x132958454e01c1fd2bc43e02424e1296b54b55d3dd3ed1e1cbcf382790d6254f, 0xdeb48b7df7379266b123e0b6d83a1fe031807f1ee37f7673738438aea64eb00, 0x2c683489b3065e4ae5d7106e18f4553762d58ccde006ee96bd691f140b15f386, 0x1d7c17b521e158ad420c9d69237f4ba6e8152541d878e24876415572734ccf32, 0x64dee7f04cf564333fbdc610ab8bf68106329eeeac1b1a59614726561db5bef, 0x21e94e5d9adad9dffcc186e0310ac54ff38b0a29d3849fe384777d0048abd660, 0x16ee0a0b45170d89c5d91557ead0b253c39a842db804196bfa07044ae6e2b4dc, 0xa7009f825b6fa180455fde8a901d42a28250e9948807e24a62805388cee836b, 0x8d5a34853ddfb099fb0fe1df7460ce4a8e4952a148da641d0e15f71efd2cf68, 0xfb198531bcad7bc91489abaf1345a3ebc5f5ded5b21c1d17237cccf9b1a4812, 0xa91f50c72a422f3f0c06cfb1401dcade6cb99c285b0705542fdaad40e0b5124, 0x2db33b34e5d9a988af35501af4e137c4717481b673292246d98e7728a13bc924, 0x1b745ff9c6e53c275d378f0a69d6c0d55d598549cefbc7669bb63a3d4100ed4f, 0x114554e3afc96df3b663c62243045e27f6a24a5c26b875e7344014b2a9858327, 0x1aef968db4765b450f098d4e1a6210b7165c53ef336b3d96f55fbac58a542bdc, 0x24bdf5ec4ebb16db47837189172e8a55b36038c50bf1f38cf79055279225be52, 0x2ae7c4a1655975ac7052d101d1346efa10fca5b0f13babddd62dfefa980ff78f, 0x165cd429a3966d1bceda614b06d459e7a0e0cfbe46d63f25521c9af74028a8f0, 0x1bb3d4b2f67440a5fbe410756945b7bddca2ff1ded3fe2108d125679097b077e, 0x18695f0185440a5f35ad74a5451da6337eda049d50b9a5d7bb284d52f9033d2b, 0x2eb1bdb4eaa3fddaa625344ea650afc460306e0e3d4bc618f81e9ed73b43a0d, 0x1de874e713e5c68d2f56d518f8eaa275229fd8fc8a7e112d7d1a24e604d3ef83, 0x1e5a6feb4dcefc2b68a5b2c3d0664daabb1f0735ff2a2d2b68430f4d39b109f8, 0x27a4284ee0c6f73ddad02f9d499be90fedd32ebd7af86f44ac50e354f743c782, 0x99d8e9546fd891bbab547a0ec1dc838cf62126788d85b2759774d9de75e777, 0x3043a7ea89d1e4fe14f1f91b584d00c3ba79831ed8d8649b5bafcf75a00cf759, 0xe7aae04dabfa34859024d075a3014e78c9096363690f53eb0e99b7d628897ef, 0x10fe0a11c4030def725ce7684fd8724e06d6cf0d295db09b4199eb3b6a9f06b8, 0x168cdf6baf5e970e1e6bd7809931d487654b42e9ed5d8d92a48f1dae8d2b4c23, 0xd241d33c552c85556e62a7afe49e5a7128fe8aa210772bbae5957cb60a239c5, 0x1e25c0e00db77c69b87d5bcb95cba934b776ec23392d8cceb6c392afe5961f3f, 0x22b0e52f766a702afc38c2c60161e352d8803f920431acf9410f7fd11e9d7d32, 0x12ec9b91f395f1665567318bd3fced7a752ca01ee0a088138c40549a31164fb6, 0x299c8fdca8918c24daf876812258a75527f1b5d1741abd71a82eac0e1fbf20d0, 0xf428bf91d4d31184f35d770a5475debf4353ce7dca9bc22763b69943344f235, 0x1be0549a5470c9429f0e1b6f9482f3c4e752e89c203c25b624817f523a79e9e9, 0xfdcc3ce028e96b21f91bc87ad052d78e44ca6c96179ead64378cd356dd2acc6, 0x136a6a9843fe104838dc085992c0eb8e309fd3d169af68af8058dd8b605eaa13, 0x584441581ce63a4ed2174db35365bcb01b93b2ec02fed5b6ced7314a127e66b, 0x1bf9ab90b1f5cf6ca9f0195bd4336e68135a5ae26b6b3511cc906156b621cc13, 0x2b0bf6b3cc9cf023ba13dc6501f00a742d44d26b66e9bd7bdd96abfbb33cc7b8, 0x19d18619bb73548590c00c7d02ec94b52bb8bbf1aa5c2ee06e1f8e875991397f, 0x14909f8c8920f79d4686a14a1aa6e03a71b84d3d9169fb7673317aa6b28433fa, 0x2397f311f598d249e6ccdb9af6ae5beb6f097f5a350886cdaf0691d0a8abd8f6, 0xac2f7a3c2e4a6fd58f9e502f9dfcfc904608763d69b94ea50288dd7b63b3842, 0xabe36a7048a34d9110a463cff2fa23b5aa0966a3c58d3086ecafa112f5001d1, 0x245ae4790107afc9b9bd1f14c20f10d8a745f077eb15a960e5d7af379a18dbdc, 0x14ae110b2829126250e1d694f08436ee0c56d230b489d08d32bc3503e73bf4e0, 0x20a0576ebdef08dbe219160fdd1a7e75d838770c780a628b1cc720f027f61c6c, 0x23a05ca5b721e48da57d373df376c5252f66e9f963c697d7d8e4ecdb55ef833a, 0x2813d89a8a9061c300348cefa9447f1a96343f329f65c4e165b5b1387c4c64c7, 0x2bf7ee542e32e28081fabedd92f4b18191bbae48a436273dc04916ae09a64553, 0x25c148fb26cfe4c3d977b17da068fd67ea89cc51079fb5d0cd3654a9188b1385, 0x1d3dd23e6048866f0855741903765842756a627897cf47d91f9f2b1ec8ab2bbd, 0xaf7996cfa4b51163b4ea8ff49ed2ebf8a5e56a44687a8de351efc172c9bdf50, 0x370dfbd98a73e24952f0208eb7e5bfa83ac7761d8c0b4b53ec669c693698730, 0x13aacdbfe05a0647fc158a1306803cbd1ebf8d995d5b27bc5c3a92d0438240f8, 0x50fb4ff23f5677d7f42b0c8184c224bb69d4f30579a6b8e9da5d22a4f7bfb26, 0xcb2f5cee85cc6e0f9becb391b7edd42cafff7c34382aa9e19de473a2c67e393, 0xa146430a98a85f906d31e8ca7b2757570996dbcf40a7aa8b6750667b96a2ef2, 0x231efb23ddd7cc3485b8bca812898aefc8095078e547151662abba0cce1f627d, 0x2ebcc008ed0ecd551829656c73b6ba8d8b0eef871aefb94a21a3ebac83561350, 0x1d2902e8b627c0443bea9f8aea5601b21dc0a41dffd98a1516761d400f7b379e, 0x277358dbe09c3bb9570889293f795c41d9c2c90425bdf1a2a566f9e4ee46819a, 0x1fbf692e87da200bc4ffd4898893cefb65a43fca504f6f675193f8d63c6039bb, 0xf3b881fb65b30fb2f849620e74a0dbf593af33bb80a15eb7fb88a09d97e0faa, 0xa116fa32c97610866b3a93be3919080219be6057a4b75bca3a7bd7bef88baea, 0x30384a31b80c532ecca12d2c61ce4eb98098a754079a69b0e44faa0a3beff23e, 0x1403e729814addbcf809e49a5465ed6ba6e4f0354a986cd27e9d03aa6a9fd181, 0x11794627e6125ac465ff2ed71d959c31860aa2d8eac3fa411b68152bc381cd24, 0x70354e3713899b38ad74a7f5e3154ecaaa27314b47f85773b6e066fd4e63dba, 0x2d1e01fe7b49660ecefd093b5ab269ae2030fd7827d6430c2bcc53d2800631b0, 0x11a01533e3713e1f38f94c3906843323c0c88bfab803e135042ba1b8bceeda3c, 0x58e4bcb4f7463bc6d02d6c40d7e858b0e0aacfc3a88dc320187d8c5a015d159, 0x1b2ad38762c6918201e093d2bc393f9fc50fd5f45ed943a8f11b269783335e74, 0x5ab9d393a4bb7eee00723e8de668b2404a162a0e17577a6e55b8025b1814b0a, 0x4058adeb5ade9a9c9e3d869edb70322278b09ce1219ba45685bf8f6d69ced77, 0x21a1c7c62cb8ece8d3bd434f87936c3a1842432f2f1a6c66101b1ac8d11c9a19, 0x2028efb9d44e5af38c0c1ed35f9cb843f38184ee0fb9f1c42121210542b00100, 0x24b0792d69eb31364cdc8b74c109223c1c2d244404c64a41d516076ab0240ca0, 0x2179ff52ea2032efd95ac4e7a37a9c0ce5034d3cad366105341e16ec7483da19, 0x29cbadb37f773c6dc580cc0c2ebf2926d598a19fa41f881e12cf4a5edfafa13d, 0x2b892f09ea9f60fd7204852f6bb995e20c3510648bdc400b97dfb7cc4d7fbdf2, 0x13badbd0953e09615a4e13d4b340f4e1bf2a03a2df5e6b8faf69d8697990c95b, 0x2b8fedf8c3662b0a10576cedbd720ced69f862124feb62eec83c7150d9936411, 0x2b3d62d6efea0a22e2d968f919a8bea56791a37b9f21d03f95185d9926c72e0, 0x7037bac8b6690794dd0907f7e315baa525edc729833c89c660406df21bfb652, 0x2cf9ea47493cb7867b86942e353487cd4f4cb3cd33e310e9fd4bc3c3e6b5242d, 0x303f5a8faaf2a6aead780f2a13937d75fdb4605d8f5a65522426442906edac25, 0x91b628bdfd4d49333c2a9ed84aba3ec2eab336a8d91a605b9dee9af0af44f26, 0x1f468f6ef5c35d3c95592e27b1de7a213878a653685abfb0d2972fb0f7f9e32, 0x1f5923725d991b36de8557d299cfe27d8b076c640cc4cfffce57e9c7477b89a0, 0xdd5d7b1d0d52266c387c7e111fab8eac4404b207bc5e216ab64b7e10414a6bd, 0x26ea3dc5cbd01be1c06cec04ef328a7d266afe33f76bbb26da8457e966351444, 0x67231875a3d536b4511d0a0b21b7d24958a4bf1cd1eec4c597c25e3a00acb36, 0x724bd4d523a70054c995241b67f4aea4e669458add9a6779d89cf3d3bdd9da8, 0x1cc9dbf8aad45d67178c5b91a0aa44701628b24120990fe6e29026a0b21e9ba9, 0x2b5841453a6653fd30c05d2581dbfbfac5ba89bda78842208e24a03c46fd32a1, 0x25a1bd92c9ca10226bcf7fbd9b1d8e2b227bc2dd4e3d46e133ae268154674f8b, 0x1c352fbd922724897ab79a60e47e5bbf3c4b714a907c63f4efcc5bd5cc6e827, 0x5e44830ec170a4a5dfd9de846e7e422ae9cb98c6f499bb67681fcf60f7e82b5, 0x77c2736ac2d0a070a1a1c6e45ea9cc526201d668ee404096b69dc85086ea9c2, 0x303f34f6aa229a5228fec959544f831ee71a1137dedb6a4b76443011eec3149, 0x273011559d239160d463a2b9890096ba4558eff7b6637291082c5eaa9ffb153e, 0xc4dc5efe016498ea823fad5e12d2e003f2cb4ecaaa7f0e02919626e58afa7d6, 0x1cb990d809fcea3daa8d03b3bcdf147a692ff7a0d8f0c114f6a080daa5a3ac12, 0x1a0a3d386c26c3d467f50ba733e6d7901a59b7453a4a34056e92e771b6dd4f6c, 0x20d81618c0e6ae5ec303cfde54346271041634cb3cf22219f999a54bc5033b7e, 0xa39ba8f57c793fe65b66907cc656a97ff523817cfceccbc2c2de5bbb8dec0cb, 0xde056fb319526dfec15d502173483ea35e6057e64949fb6e7690d3c25923f6e, 0x3f82ac12d5be639974794fb3c2322bf6e61a262c7b470ac5e97d20a4a4d8aec, 0x835ac61001ea7950d80e32fcc20bc0c7197d12abb0b5ed99392101390de2a46, 0x120efd9c0663e0ef3b6c596414f018a73cb553266fbcb1564452df9016bb4975, 0x5afc3602e02391bd4e2c5ebdda280085ec2c1f356a3a5cd2fd2372be6f3f259, 0xf885829358024fc29d041eb29a43130ec403922c4479c55ab3b346536ac159f, 0x9752c21e2a9c7d6d5b89634288e119a0c6406abe9e77b4ad1b8f36c9ecc8f1c, 0x1d6bb32d414b8f98583849694ad7ab5785d88ec70bde4bcd750287016afceeb1, 0x7d455cd69ad00e93b09ac44915f64a7d5ea3c4c1b3d176bb51859639f924b54, 0x118886890f7d3dde9af1204a9590e10750c9a6035e66b98bbad1fb625181abab, 0x245e7b3643a7766566395efde6e47601aafe307378fd000da08facc33dbb043d, 0x2ceb6176073a98a6613b40f768654dad8d119ae64edd6cc84e4b34370f9409da, 0x1b4e4d410613ae837b7f6a7f5206a03e9eca6692fa970287a53317990ce81148, 0x80057b8e664ad580ea5f385105766fc0e3a2226520cf523604973da274d10d8, 0x1131ec38d8960567a7fa9bd96dfa7fd5083e14f2843012ab36e946d4b901b0ab, 0x1d278e62c58f3c17e14769fe3dbd6c6b9faff11def7d003066d8e6b0fe7fb1a4, 0x710431fa88e036f180f0e4d46e8ed78a7e6361a239abd787b6ce2f54615ccb1, 0x301e86b0693c07df60f8ac15ac6b1caa76f13ef5175535d8f97600b8cfe3b5e6, 0x25870378c0b7068041b92a7f44b485605448458c4d2e7a87a26cda94ca4099ed, 0x1176218d48c39ce7b6cf46e760d348871266005cb0074b9886eb2c4bef5be09b, 0x1e1efc3b03fefb1c972891409432c02fb0f4e9b6f6e32b3fc10942387a9a8125, 0x192ce4fb97eec768607210a2a8fb1cb29828d4bd840236f14327e186d3946ce, 0x9d944903456cc43a43e9827368755b938a31d42a47cc6d910ca0b04ee10fd8f, 0x18e4179357588f230ab88e6fa610d882442a89519ca71bf10d8ba64fb2aabf34, 0x25d0f7bff22a9e99775d8f388a74d4ffd70f9df71d977a07d934379fee629378, 0x56ce0d47418e2c1ed7ea63d7b06dcb7e7068abf79478e2b53f402d584f8014c, 0x20dd7949307bc2ce53323022fcb6765379c953e8551f878c4b71205387a17b41, 0x4b97cd5a47874928e8e3ad6de644226493ca3a87a19b182eae89812db3aa060, 0x9374a10aa6cb0b2cadaa21e9f10459f79376f8ad0fd07830045b6f1e9452600, 0x2114b5f038cd400d24959916f83d0cc8273f7f7a51955bdba59df3ee5ea4c95b, 0x2751d812405f13d21c4d5937d20a981db7cd5933822124189615611ff4ba2d91, 0xcd90a882276ea2b8a7273eda155a6fd9d63dd094b965024411281ae2babbf77, 0x283bdacc14757e28398e67d6e7921529951edaf0c9872194456195e9781581e, 0x16f179d4dc4f2101cea8d127a6dc09e4f25ecfe4f79fa3e02851fc06108fd498, 0x286f91d1b79d9e681d6c540bd14af83299cfe5254d9a1b3aa634e5456afb700d, 0x15ccdfad34d292269d6734c173e241df98e2fd75e86e61c61369c6f59ab47bf1, 0xac6b90c6b7a47a1eda9d4a6d466b2adfe078dc41c9c6edd0a390303a9df210b, 0x25497ca515dafc37c125efdce7ee66072c8d4c152a2a30f81e195fdbec764982, 0x280948cfe3eca19e1cd0fbbaa5fd23a38e6728547e648fe80ba947c475827e2b, 0xcdb1b6412b6db97dc592bc966c6e1a67fda70232ead9a157f27f6014885473d, 0xc438d5abef5042a0a63ba4318d78911fec5373fba72bec6fd2f52bcb386682d, 0x219ec582c9278e78e48798023c5340d522a0f7e639858de4ca01199c4452060b, 0x3a092730cc3b1eea8a5a761259dd2bea4f586eb09a7beeb17c29a625bba8173, 0x10ebbfc35233d7cd631b6204cdc89ba4fd932ae0581a856a395a8a52662339a3, 0x22ce0890d9ef4f2b0ef4e69827dfb68f3a6ea6c30a24a675d51b9e199b6d7c30, 0x18948f58035bb10956bdf6d4667c2e16ce18442a19b8c281d49b2e26534fd8ae, 0x2619ceedcb834ba4008853aeb6a8d6144e281b7ae3678f1d52d352f04a9f0df1, 0x244c74d793f1a16f197a2fb001bdd31e986f094a83e09d58f2bc5aed2c8beb9, 0x16ebedd4b23d468b9f36cbdb35e00187debb15668c180c8ab339ee5b59c87cbe, 0x2bc41c9eed9f63523245f4b412216715d29becf51d660c86bdaf38809677bad0, 0x9edbf534745f8c735ac87a602d806b99dc68012eb7d6c2c1d4c38a0673ea23, 0x18dacc8d13202bf232616f3a175bc021189a25a296efc9977880782b31407989, 0xb2600a07263e83ac076bb1c4b07f48f2c2a3cf6bf7be4af77262d3917354ee9, 0x27f6d20fce0e747cfe43774331a19cfe4c234e99d180332893f70584a17f116b, 0x1050ba20c8f4d797a1aeec9de46fc7f794cb691a9b16868a2deffeed1bb3f62a, 0x7ddd2115a1e35311b052494b9c05ed47ff8fe2d418178ec600487ac8e65da20, 0x152a65b5478e0f92ec3fc360143e6a1cb83d6e99668168febed37160adda8a2c, 0x21de44ebe484523c17a9ce162f42fcdbaa71ed4437f8cdeb885e3d4a205c370c, 0x1be37644a1d3a397b6b549810568ec7636a1be4d7a64ae23f7cdf07ec93a0111, 0x18e7b112693223260a25dd17c71e431be5ed4a8ab737f3775ef61489298f8759, 0x23f7f710bc05777402a21bec4372e3b648473f3747f1eb28a78c7e03a3dbd5, 0x2470de23677a016a0004c6ef292064ceec79cd12cb1fa49992a3b9bcd0a25de5, 0x1d1fbf8b2e41000803ef6a50be409987c6f52d8b53b617c4055bd24e7d27bfec, 0x27f5fe1f4bedb064473be4b6eac1ecfd656ad2086abc311b67f3ac8b8c9f367, 0x2d53af0119dfa77c28dd102b2828fee80af9ae651db1014c3f39fa5b9b8ff852, 0x12f19947c2645f4481c89113f4514641f4afb74a8c43e0366036e80549a71fd8, 0x2f0073674bf4fd79d249638ec64786a9445fb590f1088ebe4a4f01fe5f4c2513, 0x28ed45b47e0c45c29abf03b265d9fb7500037a95654eed4b6cf4a185d1c9aeba, 0x292142dc76706392f3006b8f5b45a451f3c37ecbad9f69b2711211178683be5b, 0x17eaa9eef3dc9a7059bf6ce3a51cea4a45ff03b7cc605cb8b05c3edf2b9d67fd, 0x1a167d224f703b83f20a9ae1dc90be77516a977e6f2ed07da85b06910a65be56, 0x84eebe766b141d7a2ecfcff08750b04bd6fea80535b2a0e30ae8933d98026ca, 0x2ec0f402c6cb9709e6e3817e2b364285e18cabe290bf8b8387e9d1fe8dedca2d, 0x1657e26c61a0eb6f8bca74c5bbf34a947772ffd6c2c0f9b62836a1e8ff6f4780, 0x1f8827beb7dac86958edddea38b28f99e77180f3c3b959979378c47776616ab5, 0x217a07d6592fc0001fc240be44f71c017f387006131b83f237fa4c9668ed4fd3, 0x596d9d6c84f745470fc9997c5a1ce9d4e3904e17f16f139e1fc6f0bf27ada4b, 0xbd2f1e61a7ed47726482de76ae4b0d7b41738eb06c9e98ff0277fea16c2b0fb, 0x14e4f14b2a7bbf9dd8c3a1b5260c3844519c3bd5d139b7344678f74a36f4e4aa, 0x980b0b3d80710a167df147f9d475a28dcaf918a6aa3c967a5bb55d97a8f6dac, 0x25a6def1f1a79e8d6356671df1ca3350df855069fa1b5e7e86f27bafdee60ac1, 0x2cb242a29724740e63d8488ad7dad6c5d37e9e5d0915582e7a71c53e536b64e6, 0x6b32dc0408b1782c052bba587c379ceb352fb29579b21c6180cd3fb39ab7afa, 0x9f20a1375f56e6bee5326ac7563709bff6e90182ac092f12145ca088fdf3f47, 0x3040281c47d3b6edb8314182a595a1f3e6764e662cc0ec878b638826dd3db7f8, 0x72eda160683c3ba9ca0dcbb27f008505e83a85eb5ac753b7a67a23d245518d, 0x1d0c406bd40bb8fe800ca737d501e19f158fa205d9f63a30b487e615f4721400, 0x2e1b6f701dfbe38462061a91d5f641abcc7406a5f463822b717de79344c8a9db, 0x2918d3fd3323723a1ce75dc1b1f82948d298da146366cf0167ad082f5afb2aab, 0x4a8ede82ea0c561443858fe08d2c905dcd445f51b11afd41f4676673d74af0a, 0x262f76f5afbfdc84c240e686362f25cd1f3497d195c79a40cc997225a4349280, 0xe983bd202a424f24a83f8173737dabf2c711ecc05204e1d26b4f77f1f107526, 0x1a8c8a3b13837a4a657c26d0f804ca7ef83aac7e7516184b4c22eb7afefa5169, 0x5a16f27f460719f8b75c49c1cdaf348739ab5a216a783039bc055ec6f0aef15, 0x109a4e202a5d6ee943b2138dc5e3c868188b02ba57ab158a46e033590deb1d02, 0x114be636e12060d317a7f08c44b856144e883dc8a07af1f62caf300d23412dde, 0x1fecefae8607aeb2f109239e061d1839dfca12634a4b001bea1d1190e4ec8029, 0x1cfb5006b6281147b05dcb8a08aa54a7fcfe9b121f12bd36e989d2f47cf809cd, 0x2c2e31ca27197590bb0d46682ac10d2009edb57e0a88b4790d731cb34e926d82, 0x18f2a0b00b5449f4bb8265d9bc2b03a31a1ce6abae5eafd9eec2f3745be561ba, 0x431b6c629cebdce444b0af77df0808506106f7657209a9c96c73f6b44da6b02, 0xcf33fc2fde1e171be151ee344595705eec9d0930341489adc6433fdb9941f93, 0xa0743877b28a2a675966e6ad6e2caf32f78fbe830bcb0187aba4c21fe7d9275, 0x195b9d285a58deae30758a177e20a4cf66350cf4becd8126bb5b89e672d39fca, 0x2c3eac5d52faf5b46fca54b5e7c16cd9503bf62ff1e3f7caf95149021544476f, 0x10008396ed7e26097d6384716ddf29931bfa8cf88d0f15406b7d3e30146bcc2c, 0x9d6120d8cefd8db99a2906268fc116f5d31339c11908252ec08fd39aee66c7b, 0x29f60fdfbe0d77c1641825b499e2452f5fca3dfb427be07a32201bcb38019187, 0x2a77d988433dadddfa317cf1a86c2503fe0194fc1595e7f8427c0b83f90b4180, 0xc9650f149c994670cbb966f3903e52a637e956b5792fb69a0d7376e732e8113, 0xcbfa17b2347e6821f788e9a44255c13f5032598d1e215a822e3e7ed9b757cba, 0x167c4c995f5a20357496678fc1ac33e08431127aef92a9a00644c61effadd079, 0x17b09378da9ad8fa77b5d10db6cc7b522df95666fb204aff23c0b9a9eba37951, 0x15444b346a2eee40220d5abbda30324fd422b12bd062507887a1749c9dbeabd1, 0x3d08a26f86c97f31c4cd9a01a7f68fec8c208d42ecaa7ed2cff73b74dc18656, 0x1c539c92417e0e11b263d99a0fad8fc61fd1c065e70399aff512d8777d7cf1b4, 0x19b9209e1055f404647d2f0bd4817e798972967e1f7688877f4e857400ff8526, 0x14e73253e3b5d2c90f199959ebf071b189326f39d1772986de1ba79db72f0a1, 0xf76aa8a09cd042559e21edf64495557e806592a1d72dfe8ca3d583a04febd06, 0x7e97e1977f873a0581eda757955c93274a87454a65e6dfef9440bbe12f01489, 0x2fd534af9df31109c948d5a5d9336b8d7bc51895c34bfcdeac48f8b56dacb362, 0x1b7971c644b7fd517033b8df2325df82fa22a3b79a9ee0033237bb43fdf87723, 0xc830969ca91ef87be109af46d0ad62c93e80b1ca9307d72709508cb1fea64a2, 0x1fdb86f3412ebb18754a1f9cf4df3096cb11ba89e798962295cca254c565f2e8, 0x2c9a5c82481cadcdea6bfbda30343d9815221e29ae617a30f950d29834ad2654, 0x23b19abc1dbe34a9793537f1f39a3d81944d1b8cfc4f26b0639ca4faecd98d2b, 0xcd6922f3304a4d038833c697b0774147972516bdc8f96567b29a64769715483, 0x183212f2e427fc1080c237bfae4203ef12472a06c827f93dba5d5af24ec336a6, 0x4417a0dd6d3d8cd6d2ef81cc8333322d70f264f5100874a4c1603d1d6f839d0, 0x1ee7fd86ae6bfe916fbd87cf0a72a4be433d4d3f5b3b96707eda0c47a422c3a2, 0xe386dddd870f8041dfe619d4dd8eef851a6391cf49eeef6f1f1443eea173d10, 0xb31a49e957ac3bc7ff0f65ee6fdbb4cf4b145dd8a234f0d7e6c0639bea00747, 0x17bedf9f13ab9ce8a6e28190479939cd27863b892ffcdae05478a0859c7eedc1, 0x1c28fb33d99dd1b3ae37f884f3552546a4f5afae562f4862fe1e92e702409e15, 0x15c6d0a394166967cbc39280505eb9528cdab0ea52f1595c5e7871815ffd02cc, 0x236303150f9e76503ccf1be5c90c3a485f90f7c1ffaebb1c4fcbaa82a0519bcd, 0x1fbbe0747bd2bbc3ccbb752ced9897731942f79d9a761d3aba4a169681e30fe0, 0x147146fa6f464f7e58a1304441d2b7f64333e21779cd71f880962a50ea6385ba, 0x217e02c928941516f5a9a78eba51468d93bfb278d1c79061e666df4a32092c03, 0x246013b423cc893a16b68c228b01b9380b47b0afbe4dbeb1b4340f5801ba4c1c, 0x2b5225496c1e6facd5b74f12705ca0d4a7b77c30c1c8311c3c81837167ab45ef, 0xa950f572749b6fad6d6c324f40568d7219e75a884f9bbf941b20ee81b42c022, 0x1a71888e664d2ba9bba5aa22fbc380f29810d0927d286af59110769f07f9976e, 0x15c5c720ef6fa5b02936376c298394bbedce59824d6ca9fc260f5edc8ea5fabc, 0x1c84983cab32fb96ccd0276d25fcb5a978edee693520c0b1ca097792cbd1742f, 0x10759b7a744e81322f8368fffa6845102867e21ca6893d97b463094ec72a1e24, 0x1ab43f1acf28763767e587542a3f399f0998b4d20f532d1f5b3935ef2ca3fc6a, 0x1d32f2e0c56427580de962f147633899ae7237f4ccfcdd52e0d9b7b037ce20cf, 0x2147506e00fbe0f6458115126df9eeb1ae4c331a4a381915cc195bec94888d65, 0x4e95ed8d8a554695f2a8441c175f22c61ab041aa4d27e4821062b02f7a29ab1, 0x2cc181f94de5719fe2cef2222777dd98aada9d4cbcd076a2cecb3ea78f8bfeae, 0x1615f6d5826caaa678c4e5c01cef49b442448157d2c651e3b1c99d32b2c51c0b, 0x54b0e2491d3ebd17f7fee0b0dce67b82346d224aaaa477d5d98fde2bf5df5d3, 0x21052fe17f3f83390ad8aaaece48b7924e54b8070b6304f4b4e8ab9f89493713, 0x1b1d8d905c713958dd315b0c84a65d479f6fb8d8698630e7f096342be4f129be, 0x8765df92141cc7b51bd0873fb5259a8acd5a9b5082889ae550bf3ff1e8cfc39, 0x1dd1e2c068b653203542fea3746329eca954b9e28fdcbd895870b32f34811054, 0x50582affdfc4e5c3ce73d746680b830a843939561216767e4ee6342502e2a18, 0x151572a6d1f57de2fa9e4aaa545ffb842bb184ad3e0b0bde29271b55732ea2d3, 0x18d0aa380c379a8e7000532a66d561410e8d118d2eafb6c0d6d3faf2dc8e85be, 0x2424a586bb57c0883ee4ca4ec731969c7422502c8a219cb95ced3a1209b05fdd, 0x174d6643ccb632a14b11162fc35700604c59399d3a007f5f891504bcf7d77cd, 0x182104c94166052fdc748d49799011387915b299e04a80e33e612740706e7a6a, 0xb70c1185230e22dcb948428cedde9d7dc9c967ebd45af4d9cd62da07bd522f5, 0x1db44b6e0142bae1070f734522bc1d40b99cfc51e62ff6dad389fde5dc68eca0, 0x23779598119faf923336a2e9fe15a7a32d4600a8b1f7bbc73cddf10fca81aab2, 0xd310d08d48c04dc78bda687d48a00598bb963f09b18df3b8b8d31629b7b8a82, 0x2a8bf4e2d52476ec48829a99fa53b47cb1045bc3fccebeb252218186161c7b3c, 0x13cbb0f381a6e6609c3fe4077dce0da32138966e7ba2812896001837585b2eac, 0x2ae412652e44172733e1939fd32eb7804647d29768a74b335036b24553571b40, 0x3f426a5c7707a7da1a8348f9e6c0e6d5b2d507bbe98a006f715bf2f28c14333, 0x92fd1fd3d9c5bfccbd1581b4a16ec0a80915ed2f56a3d4099b239a9b4449cd0, 0xb1e816dfb839a8b31ddce51963f3521131a5aca1cfcb3d20492f9fa4ff2b8a, 0xcdaa3a637ae81ec5fc6b4f592b5e04f7fd8f1f67b915d7fcb95c9c5bf3d7c73, 0x11fed5b9e736562938a571aad6c1bf987895bd25d53efb5e93a89589d638d0fb, 0xd06b9038f5d041a9edd114b3d6346ad5e11d8817dfa3e74034fb82fcfbc8632, 0x22f79b3d9df4256fc835f23d5e16c8f963eb0f80d76b90c47af463b7ee49af2f, 0x2bb2ecd74be3c847c7df14a1c83937f8b24a3ba2744959a2f3733dd4cb777e6b, 0x10bd1d611707ebe4a82d2ca962e0054bb2b7631de85e3468faf005adedc2b931, 0x2f4035fdb1622d23d1b9cb82da64f9f7071d09732cf17a53ce842eaa42f365c4, 0xfa7d8c17fa7018ad14f089eb8564bc9a7c157700bbd07c3a64ba258b8e7920d, 0xb8ca93688bfb7c1ae365aeb344630c19d0f1e74b666dec2b00436f496bcc5d6, 0x10d685614a99a405413e3559d826175205a03fffd9b037ced90bef0af0db1a72, 0x68e162c6a02caee021d6f4461fb4e1ca1d6092a85d90044c3eb14e07c4e4a83, 0x2f6d6a0c4ee21296496f69a965cb8fe239b91ea81767cb82064a8aa5e27bcc56, 0xc6a439aed8ec86b5ba5f2a4a045faf2fe48bb442d9f7521bef498d057c2137c, 0x1e6b0d4b88e393a9d915c013b4fda5a7c3b589872c06dfdda207e1d6641aae2d, 0x1b2116f8a7de6981e99425446c1b720cb44955dd4bd46fcc6c522360e1c6bd8b, 0x5013f00c86773de39c01ba3cceea5c0cdb0d882f199569fab37c440e25a8e56, 0x83d430c489ec684c164dfdbfc5a0556dd90abbb11a8ba1037b92e7c3ce42cd3, 0x1b0dfa5c2f0fa739b03b0bff40616c9b5ab246c29694473d6e23ba5c5dd98286, 0x553fdcea1498f28a9c4a586d47b0297b237e59c2c0e7034459f79cba4b29045, 0x164c272c42e1f907ba9fc7af62e5a9dc836e9e7124eacc6dbc5cfeee3b74e5e1, 0x2eeee949382b74229a3a5f86420c596b8224220ee9c1d093cf965c2003c773db, 0x1aa7b899db428b649fa1e4672581909f15a091c301c527ec4a54c3c093ed6003, 0x2844667092565157f2a88a0558450adcc388e6148d2417cac3dff95ebd707303, 0x247c0d8658c6a57ec482adc5e9ee6bb67948d96c781ad98311e279b81f67ef35, 0x21621a3b3c6489991b000d1efcdc69b0a540d09680497d61e96284e668c9abad, 0x2daeaab1259ff6596d09ee4b567cda64ab0fb88a31783266e5d14048118e62f9, 0x1906cafe7df4f4a8359a4818a4ed5b6769cada0a2e046e2d6138bf8f84409f4d, 0xc2adb51600bba92fc53dc2165f80f7053a1350be50f6268dbe18b10eba2b31, 0x26b285169225658f8ccc3040cd85c3ce1f447e47eeb7be8e3b6df38df3d44bcb, 0x1c2b7e2db564eef0909dc7753604a4cc5d45d643355e3c60321d24a80ed6ccad, 0x2dda3e9fc09d2c2e6d52a76bda84df106ed236ff956f127a804fc7025bfcddf8, 0x11919b8f4797e0ee89f05e0428f57833d8b5e74104814a6ab664de8a45887ef6, 0x127bb2c1e855294058203de7a73f055c6f42601a2475b1d75f9395993ada7b1f, 0x2c59318cf432b8e499a99a0863c914e8c7836a23b31bc758028182f83283f61b, 0x13b24677e68adfb873ed0f23b0025bb5747a5fc744353025d2128d447017ac7e, 0x2628fe26b4d2bc5f8e90679f798cd9de5a47bd2f0486514b6db4c70cf3c247c3, 0x237cd160a1d6ae30ef20c93476c9ce0d6066c0e7a5abd261faaa4bccceafeabb, 0x1e1ad584ab675d5b5a4aed3ca5b804d62c29733574cb9c9ada2577d876b99c24, 0xfbed731a82174de7be9e047985673580ab6cc4194893884c9f51ea11ffe8f58, 0xb441c8f1423a29a71b1dcb16fdad0316d5334a298fd4480125e6085dcff1078, 0x214e573a6c57ff7da396c0aa15efaa21fc0930c59984cf9c8c74dade3af961f5, 0x1b6e4364576e33a3cf54bf21c10a91c48f7eddbd9106b505964ae8e0b48a5dbe, 0x2cb60dc30aafc3a99f1f439eb34c38e8a7ab265de46f45003cf2600f3a4619a5, 0x81c0b5c56711e541bdeac150b0644a7cee255102a4622dd990f3410d16853c6, 0x1920f847ae83969af5be395a459838984a0db77310b2c8c533eb602908321444, 0x1bd14cb5b0950d3b4783c53d2c733a2ae6e914ec6015517039128b154746aef7, 0x2ca16700e67134be0eef329f561fb057867ab0c66a7fa1dad6cd60eb3c0d32fa, 0x23a4bd6bef7f4d21c26192475547245663fbdd3a251afca27636ed1dede95365, 0x90204cbe550a36f11c9d12b2a56a6ae7399cffcbc1682d7649cdfa12b5b3a2, 0x1ae99456d0e8b238516a52067559e599207da285d037bed5c748f39a6f94a04b, 0x2c18b3a0fc4bf35beb9a40064a69c7d976eff45bae2c1691005cb835ac07f44f, 0x2dca944b91011ea9f224fe5e0612ec2021e2e311dfad8d8d52376b60dd2963af, 0x2ea90ce7f34c864596617fec562b4cd9fa0acb71161655957ad4615ebdf4645a, 0x7d2a16fad795f38267999a70ebdd9b2b24de85aad12cabe10855c2bd71bda2f, 0x2364415fc864df4c341a8e4267a1f3e832ea5143a4e2686e0d8440c044ff862c, 0x2f5c88b96aed854cc0049a9ba476a6ba61789e5692cf2d7d8d9a7cc7b9d0cbb1, 0x29902aaebf3e38f0ef39c37deb5e4fb0f32fcf23b74511a62146b3f79c25f6ef, 0xe190e057ebcf02ce0360f76fd5b279a4fe2ba80646ed69cc7d568411e81cb51, 0x23097b82c0c75e53cb8084869e51400bff9e1f0d75b5252e988abe3562702f7f, 0x30180e17530b860901b1fdcaf23b2efbc13ebd49574e69aa6df159d4a9dc8553, 0x11ba605959afb5de92d0a0cf68945b5e660a59e6c9dd2ee4838a9e52dd37a09e, 0x19f8beeb3629ca17720e83269c010278231a330319beabe793e9af41518a34ca, 0x278f39897cc83610330db265f6f959ec983fa13838ba88f76aad034c2f90151b, 0x2349cabda83ae2bf55842e72b804b36435a49e0b2f8501f00856605e24dec382, 0x7279b75f7a7c121005c3b62b7d19dacab6e1543f12bd3665c31818c5f2c7aa1, 0x6a49cec0500c059bf61970d3a03c4eca079f3bea76bdb652c9c13eb3a57f26, 0x877dc29b504019644485576670f38ca53149695b5aacc5c4d50108e2683109, 0x29494a499fd7cc4e34730c48b22a629b24d74a728300696f523befad8a329f77, 0x62086a3a24f3dd07219b38975c451b48409e3433eca86c0832070c82f6dbaa0, 0x2b00d39eee2b4106a70ea6184d95dc19991a0fc21c472717740c3276a9a9051c, 0x25c788dedee36b381925503dc1bfc81f09876364b764989f86b9a9642c92eceb, 0xa339d7c3399eb0090f9ca887196f55e5927dde8682c37fc9e85005d0ca14e5d, 0x10fddd4d628eecc6bb55ec4ed563c9c9fbd76ef45c591c221e08b66f44c9575, 0x8cad7f09fcd6d0a763b153a6ba13d09e4fb910e98a745707095c42ac32f7cd5, 0x2ba8cf3a07138c08643263e2d4edcf9a4a47328bfda137edd4115ba0b3274d78, 0x280c5aadb92f1863c0ab20ca14b01b00201b21dfb71c1ed32959b212dde8e8af, 0x243c43be625885bfba5754beffdb8c4e2718bd1ae38bac39b66883a20324547d, 0x1fb8a7db96d88075b7ab36e71669568b1a88c0bcc572ab1c780303c569e4108a, 0xf7adf6a27eb979d0a147b417255058e3dd399f254e1d1571e5a6025d85d593f, 0x2a9c20bfb0234dd219ac5933e7616040ff98d6f099b53ce9dbb76b7a21c655e9, 0x2db11a75d864992a6df56cbb1eb569da36927f43362e983de12b7661aa91f465, 0x29cd63ef57ff897ac5b7df3ba8ed72d43a24ff18a03caa4d99f1e53190cd239a, 0x14d0521932e873b6db85e6a3aab001469a168e978eeb4c1a9386190dd74ede71, 0x26a3e834054cb4736723d1d15a241869f8f23475d377e69e4a3731689cded16, 0x8bd8277459e8e0a8359ee5323541bcc1465b27b9685fcf0d77e4aa73f4a5ea2, 0x19f6a1b5a8022bd124d262a77499621114c87b1bdc8e8ac715f0d906b5f571f0, 0x1f99477db5031b0ba723b1c0c6d156fe88eaf78de09241f1f59e0834f91c0817, 0x7a87edad5067f361df3b764ef37fc31175e017d9635a6628cef9158f63d44b3, 0x264fe161c98a2c04514b92f20b75c21223b2c22655e8fe2f76e4ce8d2563910d, 0x25bcba83915954bfc6a3fe5bccf6ec56688ec209cf1f976a48454dc6ded0799c, 0x2742a82c41ae2ff68e524803a43e387e425e943a2847fd729227cd01b707dcff, 0xa4bca229eb9cea967db5f8650f3a9213a7eaba0664529ec48cb4816a32f3e40, 0x162dbbf72f31e2af5a8c62975d6add0dd747a86817bed09d690d2095ac1f302a, 0x1d90d3a9705c5a9a1e06c777c9158d78603ad4f9b10cef41aad2b8008d86bfc5, 0x2e97da108e41920c71507d3ffc4198f4e403fc080e3193b63471e816d3aa655c, 0x2bea7cfcff46cb79828d1bd5bc4d18a375765bd6927928bcffbea2aeee454519, 0x2e5e54e0fc642d8a0a21df48310fe89d3ecb81bd2d564b2b12d37ea41ce66374, 0x2df4a44be5efc0c61c496a8cb723e9fafd7dca85ef9c5ba52c71a78ff2a59d9a, 0x1dda9c60833b52676cc9476ecbcb34ee7f5b759fc0f8229f1d645e38073fe051, 0x2f91eee054fa514321dc0aca21ff25af7381ca3f4ef09a2fa27355c4fbd886cb, 0x94327a79722ee116aaf8196c4844e442e7f36444ea9c816948410ff111e3503, 0xe0de329ebc013684671aa68f0f5c56a65a3c7e31b34af28d42e7db606b2ec4b, 0xbfc1bdaea3997e63db63e94d43074ea379d5d5f9616edd9f19c1787e4875937, 0x2d74256d470e8f893f5a6a127237c24502c9e10567b892f7714983d142d007b4, 0x108523062a51a8b428eec2a66284bebd07dc1eee904f4347083fd1120649d616, 0xc5a805d2ec7e6b3201e4954184dddc7a93d39fc221fd8674b33b68d65ca9e48, 0x172a06215673e0c0432c98acce1c426cfed640850197e72fe848b33efbc8808a, 0xf65d03fccc7537eb1f4fd6c5cd05fb04b40396e99328a9e9f344c5dbd2a2e9b, 0x20c30ad3d6b572577a8733996093d5b939fb80f2e7caa53f0cc967c334dcd6fc, 0x373febde10260fefc6ce9670914a9cec5c205a75d23def62e22fbf31a61dea3, 0x2334bac29b92db769c06308b787943375ba7e4560fdb741aa6569de8d16417db, 0xa3e20c8a61c8bfaecbd65e43b13a59382b021358cdbf7a99805d65822f437ba, 0xea78ba65528ac7035e06fbd9be63a50e0caf8d0628f33c7b229d0931aa6f05, 0xd1682fa0a924b9b3511188fbc8f21dfc6f9ef8eea1891607f22b1f9167204d8, 0x2844a8efb853b2db634a3cf36ce7cfdc331e7f32b0035d6705dec154b824b4cf, 0x2a2a574661f939e6c6a49f90107a2b54a0002022f963c20c1bf8753c826badbf, 0x11cf62ee06e4ab926c482f35525a5dd300a259bead4cd8fb9496ca06aac9065a, 0x29045c7fa9c73fc5b1e13499d171a16f376bc8b812f2654908b5ecd2b8261769, 0x57e44377642d4f3c7c1625dec2f3f4d22e915c7e90552879af016f7a1665f21, 0x258c4640ac1da995bd0525fa9162d7cb3a5d9b267d044a8c3c3c4310e68971fd, 0x95ee6ff5568fa535092d74c16311e477b7c62bab5fd585b7d4f1bf65ab4cc6c, 0x806951088d6f83631a371948626f66625800d5b61eeea63d0d53f1c46ae4e21, 0x2e8cac5fe2f70b026d84f39f1bc80f3ebff2093625a1d44d8c9498a3172ee2fc, 0x112aae3d8032ae80dfe027a70961c04d17c99609a38c2a6e6a609ebd312a114a, 0x7f1bd289aaee1f4c2832bcd88746343d2128b9826f18ff47a02c604e04b256f, 0x20fb251f294ad1fc3d553cf9dc532cf2105d28b419cb3379be54f68384d3656, 0xa76309ef4f35a0d942d2adb40042103117f8a92f8fa22713e5c8f4630a33aff, 0x2e338a6e276394e620855137d23d86e73b6a9c44713543e6ef0ca373032b662, 0x11277c021f4bb0566112a62d02989f306be3d6a61a55d6c2bf32b9b2d6eb488e, 0xe416f597798c242813d07f02fa3f5afd3cd23eee8bec05ccf32280d2eaf0e85, 0x1246e80a1e90daf8f50c8e70a1973229c1c0476a262df79136087b3b252325a7, 0x2e7f56ac53002afeddd2ecf49250b5234d40ed25924ce04da52fb13d8197db4, 0xb383f460b713d1af2c2721ef86ddb9ee97b4d51281993edb77472acee552822, 0x14c46b4a3f25b85a2d1085cfda812c8ae5586600b476acf5e6b6145ab449c52, 0xba3a95d3c28b392f3957569179db635593a9fe5eaaaa6410259cae7a66ab635, 0x2bbd2ad310bbb5d2546328872c54b64e25ab05e3477e04ce1f03021ef31b90b, 0x1cf0637ff2abd72a4c5d8b24af9998fc29d5f2fa62ab47914df14e897467d0a3, 0x263acdf45d079d43b1436625d9c3229e58d82daf3a40bf89e2672ff6785ba580, 0x2811eb97a600f13912348f4e9af47d30dbe08050ea0837010e174ec3f3acdb84, 0x15e681960836851b15c8e9896e91d65ffb1bc247794c5900e68ae82f1cf732ad, 0x1a1bf5d7b73d6cb3ddb0fcd106550674cf8b492a86440f90994543471d554405, 0x9137e8736492afc6d714d854ec1bd8c0fe63d4029ae840e6ca05fb3a8b36243, 0x10075a0236e3c6938e8acf35759f8c19c8630260bd8e58716edea970ec02ba58, 0x126344b41cb4cfdd9d78f912e02ee47059c09159f97c42943c5d2b735b6769cf, 0x472a9ac7f6600881089a175f3287ffdc01fee5780a38e1e088b06f047024c4f, 0xe52b1a8dc66014a14af480b80c8b3fd99592633eeed6cf9506e4f6ca9bbb8c6, 0x190e307e6626ac796ed7c96932800d3f155ca89d84c0392bb48a60b009867540, 0x19017529213e1cb331a1d076be3254c8ee5d9ea4005e9395706ea0f918491384, 0x1889decfad56cb14a6e2928091550a4504fbabcd71a9f4e3895367adccfec767, 0x14b3798bb27713b3f92fb086492367335424c56e0e7bd9ac39b5585fb18d0067, 0x217faa0b7866c660a700fdaf3ef0438acf44fc73cb7eabc5fc190b64ca97056d, 0x2bf465cb5271fe563121bb90877a821d529fc815fcee372474ec02cf398f9bb8, 0x6a83b6f33415934cc47c952b7911c5740d8d56de6a34837dcf8292ba823811d, 0x26bc4b7152ec95967de18162da0400a2b369c91088835659da957d1ce2b49e7a, 0xd9bc3639ab1e9a50234c10d7041ea2220bbe7c94163188fab1f79e656d13b18, 0x13152f0714ede97bbaef3a29d44fb441aee818dac04f11e4e5c6a4dc31c8cb3c, 0x1afc129a674ba4ac7552dfead9ae8d2d584dc7e4a2ff2cce5d3b6f1350e08d27, 0x28498b045dd1b9b56e558065e0d7100675fa16284ac0ced1048e07c280a1745d, 0x13f8baf6efc94294c82829f59da2ac86191b031bbe2b2fe332cd302cd5d946c5, 0x2b0314eecfcf61ad7d4c6d8c7b95ec7fc99ecf8a648c21e23fc5f1946432f790, 0x2bd02329f573d05bd14eb5971f8e6df9438e8ab78b2d37a68ddb1a845d4cddad, 0x2f121eea462e2dbe253184030c4c1a59fd50fab1ac5c49ebf621f32347dbc0ca, 0xb11ca165736db53fffd72e0d939b16fd5bde07a03678dbb6fe1302dff3abe2f, 0x244d9d9b9bdbf0a622193df5b53e533ae146aeffbb95815c14dd44340e192b9c, 0x2dff8347e64c0966cd327c431d42bbfa8e43ed65d58d452d2486f2affb4fcfa, 0x22362991babed59c5de9d9fd96a339ac988181b256bf1aec52a3d0cb8952f717, 0xb5ddca04cf6621a6f22b94b90395a58fa8f1cf296fe5beb4049c7565f4f2a50, 0x3b3edc6b3744cf0578b2ec40d13a99debdb6e71973e0a40d265b99a54d6310e, 0x2ddfd9a5dd6daa9051779120cb17ff9046ede5daa24b5c33368fb84b55bee38d, 0x2e928f258564f11bd72156b627f0374bf8a557c49f88598ac940227ca2f59833, 0xf970b4e284e95a97909459a34a03b90dc9703b24f9cf05fb5250c1a24861071, 0x27a802eaf2f9dafe4845f9b30907fdb39fdd9c44c5d181610f55882b7b381dd, 0x4ac7bc03182be8029a8440ef875a248a480985e693fd4eaeb92637c73e89e31, 0x75f3191afbd21d51497a26c524665de743157121f093c120d93e180582eaf8c, 0xbd3be9213121f779c2b2b0a024be82b518e1bbc134a65f440c4476a9eaf585d, 0xc9bce95f2d5967d3b58f93d7e03c93170917ea53b5f8b27dc70a1faab474cdd, 0x1e3b04dee6ae6635722e354655f6032d1a5ca2e6d7afa0c77b0be192f4f0c6f2, 0xc1fc33b93195f2aac03fe6eef3e4110784c7c48322e30ee51cbd78f6ce9d93b, 0x2ab604267dae12494550e1ef273708dd11c17666770ff0cc7c077c935bf2af8a, 0x1c69985ff78559519a0052ea05e608e35cace62db7eccbbcec55af3db9156468, 0x16334fcd421256398cdeee08a9345a527decb71a01eb43524f8d3ddb0db24d48, 0x7ef8dd7665152f85d00939cfbabcfe37e2b1ef8a77a84568aefe01f1e9b5ea9, 0xdcc426dc88bdec8c2848f2d88a200571b8a012cd0870fc6ea0b981494f58278],
    M = [0xd064dee824928d39f2a8be7d2fa583223c33995784d228839adde2559592592, 0x2b2ff5f27531b6f3d6a85d75e3e08f3a2f0dac3680a6c26d55ecbf803ca80569, 0xb658849ce620bbeeff233b7d12258015ea9f87a5390f5614981eb6e4cb4a5fa, 0x118132fbc1cd83f95167cb4473d54c6bd2c417e2782e5efea16e72d47b48b70f, 0xb5944768d61c1b3562a5749f4f06c4dd085bb562b838d7e2ef14a21fdf524c0, 0x2b04d6ffbaf7144012d92c5c6212803c0b5bcc0d7b1950b889d1fa6f3e56445a, 0x29be2a42834ae32de3320fb0ee46b4c102a3d1ae44c5dce152fdeab5450c9c44, 0x1946fe9de0a943d5a716eac08561cd91f9031fec82da9ab72883c7b218b11eb7, 0x1af3ca6240a55aba55df8e49835b92fa17e39ad5701ef70f8144109f894bf1d0, 0x81f58a91a4e0d100e0369fdd81a190035342fd0677ee1bf5215e47f8e58c2c3, 0x22a852af90680a8ca9688b71ed27c157d02b406bd6c7fd8121d7c7793ad2305d, 0xb27ba82a0ffb98368981736ae927a227828985c00c3e5df8c1276b1001089a1, 0x4b46526207edc70a0d23c8438bc49a365635552dee240661a2cdeef966f20f6, 0x2d8c70035731ad9efba92821a88119f6b8183a362be641729a93d6a327c03809, 0x9ef3492ad19dd1d0bfbeb191330a880ee7933c9d3b36bb5fa02283bae5d605e, 0x1458de516a534190c5550c6a1bed3af535c38b242eb9291373096ec60e39c1f1, 0x136ef2515955ff6619498fac59424816189f896ac0ed69b59854d105df47c4b4, 0x18cbfde0cd21c183797a2f089594a81cd828f3b0742371ed02eb83fb0064dd43, 0x22757da9e822345297bd060a3f71bb1e70ce977049c393235035677e84357314, 0x1622805125ddf344c18e351d11e82291618b975822ad0c903efbeada5a51d44f, 0x29765d8cf77619a580658d127fb6faa44d6c70a0f4d65dbaa960754b4195d9fe, 0x2bb0b6b08fc1bd11070edc42f23e807b82e8b88ef70355dfc74e096a7ff381cb, 0x4951e747b7ae6b99d9250108c5d2b70181a93ff1d4bf723781e1b938029827c, 0x17780b9469e81ca70c7cbb4347e7fb40c63ef68f3dde51d04cb47b3b83fc299e, 0x1913d51d9c71d042bfbf649d9e6e6ea5fdd82b4fd3173ff2fe02b85582528912, 0x2a9e342a56c8b6466d3fe533b89f1ab441b62dff3153d3ae6500c2c3be6365e8, 0x7b620c8a78e09e49ce547aa783aa78f3e4594c49ab3dd6f602bc6c0351d823f, 0x27d6bd18703d7ca92aa24076d3187b6c0028d0b6213d9e5d2c66115237a19051, 0x2969eb5016f24b31accf173ca204668dc2229845bf6446cea007c113349bd4d7, 0x29c67bce04bfd020f4ff7eacab6cbde034b22fb86334675a361f059e50395311, 0x124474b08829d9b717c50884bc895cd3f81d519859d21235d7a74450d0a9427b, 0x2c7e28f59fe8a8a3bb2fa2b2b1e114ce283fe22a978a3df9f62a171cb1d65e4e, 0x165c0b978b4bb646a9ff225ac4900521292be54c879882d3f11eaa3103341487, 0x2066134bb299d9e359cb82a8380feb63b60e4b9859d9b9872edaf9152f92d4f, 0x9372ed18ba1a774eafe1bff6deec4bc0814b0899c6196fa15a7acd15ecc5ca2, 0x1e3a130e8caff9b5e563e8aaf84b2fc73668e351cfd28cf66f5012de61345b58, 0x255543a314afc5a2991413228c75eae398b90576b23b6cd86128665cc3bd9478, 0x76547449fa03845f185e61578a5a8f2683a19733fc04c73ac6a0b89bebb8453, 0x2f98bf081e0eb78f8025c03ee9c199f2e838c51e5a0aefd333e9f7cfb38f534b, 0x231996b592528575567d39d00645a83b13929093bbfa00d6a661e4a690351d0f, 0x193f32a3f839f76049c9cbf2414590698a2118e83658327c4338aa3648d8f7d7, 0xa5da659b6fcb1a4273e1b7e3b544d2cbd362cac497afd004b8ea920fdb04bff, 0x2a832ceed3837e742196e09491fe23e3f6e51126eab9acec96e71953102ef24, 0x98bb2c4c6334dfea474d04cb2e9761861f6b18a8058a52b619d6227a26228a8, 0x101749f9dd2605191c1963f25694ae267f6b44bfe2d1af34fefcb65e958784b0, 0xc7b5e09343db5c63c110d3175d01bb498290d971b1e6dc0e9a0e9e7158356b1, 0x116a313d00cf99dc18e21f93a5bb198018bbea4b7cdced3e4d210971dd0a681b, 0x404c0fa1bd1f7e059054cbb87f6b5c69d11457e59f90419ce4bd10bb8a803df, 0xc1c216af33054c497ef04381f58582298b54335f632bd62add29e08067a59d9, 0x11cb20544f43437a688a7dcb573a7da4f8c7b4437349eedf3fce432a6f3c1653, 0x186f160ae866e10c4be0ea7d204cd64e57337c60c40b34c3a371d753f2ff001a, 0x1e1d5920edcfe9d6b2d0ddb2f6f741afb06590340fc07b182ea7c3ebbd933931, 0x4e47a72e49b9c5aa3f69f6af22fa0ab640c93fc524dd3c508486d66f079852a, 0x235d0e71a350f1f23d9bb5182ac44ec9e4615e77801e5aadcab8336aadb1712c, 0x1219740c424743dbbf896996f0ee7a4076ba960a57e8d7679b828479218570d1, 0x2b501f1003e27aa809dc9e5cd84976a3b8c169c1e9c63977d7823f80d3f823be, 0xf34db93ea8d2ad7d1eff86db5820cc7ada47bdcd8c82d01821f5c21a3ea2325, 0x4d02ab05826fa50bcc5f9af9e396477e68542d076b683ee61b85869d4535893, 0x2bcc82e75391be4ea9cd0f8a505f9e4f684778fc7a9b1bceb7868bb299cd2072, 0xfe29b5bead54c5bbf426bb12844a2920884ac447906101cea9888986a030b11, 0x1bb2091870a4fac03682fe5b1e2eb56b14ad6e48f4676fe41454bfeeb0ffd4d9, 0xf54c9c522a5c74e0d4e0c63611a7502657575b7a963c0e786d2a761c4e845bb, 0x160f5ac0b2481f8019e95e0b26445ba64dc03a4be8a15461496247e6ac29002a, 0x2f3d6b8e2361166089501b9147e84ab6b09792ac17a5f080d75b3e320affc86c, 0x1b59bb60e986194987fcea070498bcc7c93dd561ce8af5fade754ceac07b1705, 0xa8cb4b2bf3f0c5da671e48f83e5c1b3018f0d31200a6f19fd5195db22eef7f4, 0x1df5c9ef694afe61bc253ae908a8f6af0a08cdb9e78a9f322c22388322f16c2a, 0x134431128e5ffc0ab60136c5d851a11dcdd63cdcf17ad64fd77517701de675f8, 0x3ea4e2bffe02da5977ced1f1a6e852e921abe2e015f35b36ce4bd0246c2cd89, 0x6e03ca1146705522bb5e9dc73560eeee6b9b4bf51d48f953fbd1f006d758a75, 0x14c499ee51925b231da17ee7b55a75f96f462e431675ee36c7be4e9b069e260, 0x611ecd1f379a0062b05c4aedb100bc015244c6a88f1631a456cc2acca8930cc, 0x22af37c0e4a88deae9f7fad83819910735cb4b49311e0aae11cb7534d0bcee6e, 0x299ef95aed8c75494db82e8679fbc6d5a3d2e29aecdcf6979a9b272a607dd5df, 0x103cc8384be1be1087b9bb47c0eb6049f85e0413f7b408f1dc2fa1e6fc4af91b, 0x206cf4290ac984434fa774bb0f8901a233905632b793c80b1d59966e96a73832, 0xdd85dcf08fd38d22f316d91d812cb2a884308775afa9f667c6ca80954397c86, 0x24ce0acb522da527d3eab72865cf073d954babbed3cd1706aa69d767e9afe7cd, 0x18bbb002b46f2e5fec2b120faf87822ca8e77ace94e03aab5c16c4b931739dc8, 0x1db2021eca3a3624a7d45bb16cf4a44e2af4fae0dc280030e7ebe55394f69d8c, 0x97c6133aea8fe48f3a5fc416bdf5e46d05de0723bc49e53b9fb5e83d350c295, 0x150ef9e932a74b8debf670080641339b12684ff5a303b2fb7c1d8d56f56ab61f, 0x1237f44f036b2da0067a94947334e3afa2ac4cf1009896766f5b191cde284972, 0x2d9ea99d2d237328266d59dd7e018bbd6bcc7941d9ff5f07a17baf0099f614d2, 0x477f951e19f531b8434ad755b6783d61b679efbb87fd956e394db9c434e2352, 0x1d8b8ba772c4cda72e8ef9b19c424d55d57251b247c632bea255271afcfc70b6, 0x206aa2f36e32b2b06d6be48ad493d354ca7468753f526e6bd82549fc36cd4109, 0x28da9309acca103ecf19df72a722134d530bae6c660db3c364d0ebb200c2aeaa, 0x1b9435855d6cc4339240e9fa3819c2ff420980d6cf14721b75e4cb1fe57e118, 0x238832e643158e96689b5803b0b77601b59bdfb4926113a3455f1ff4df6e2b46, 0xb43b8facc43cfc067b5513abcce846504b9395cdc14df96861a528a52ae2ec5, 0x2bfae1b054ef2e924d75a8a01283da29103c57bad129ec8396ce274ba4524df, 0x1a46a26691841c26109a32ae07eb584a6b8af657273cdc4d8a112dea0bcc85cf, 0x107da0784dfb314d82859be44d37b4d2b6345c174b91651c65c98449682a5204, 0x2b45b3be2674fd820516acd6cc6183c4fae0f7edfa9afcd02dfeeccd02bfed46, 0x2082e9103cc45245924289111527312860f6e7ee94578f0118f4a920d0f8d525, 0x303a9e22855d95d07e8172f3a0536d4b95142f962b006a8ab09e7bb6335e8487, 0x2963514313f046f844f950ffea80f5e5b424b707f16599662e5a2e3668cbe5fb, 0x4b7f8d1d5ec8bf689adf12d656b94e15b0b229c1638c9c4757faf0d18fa6433, 0x259547168b64b2a228941a542f394a2699c081c149463dc2c3d21fd8b2e4f31c, 0x27919dd2f9d3dc9fcbda1a23b95cf23e3630e6fd5210faca6acf4629b88e5ff1, 0x2b9237e5941e1657efa507b892c3b8dd57fc8d52876ecb599dd5e1052b6b1f2f, 0x202e38e669883619ecbc6a6a45368b9b9a3e9ab67efef50f896dfe48b78d3dac, 0x262758fb3e076936995ff3140ef7d1b0a1e0fe4240a50747e2c3c120d977f3ac, 0x6d101b19477d1627b9542581bf0cdfab38b05cdefdcb81965c5be00d780f192, 0xcae80cc05aedb66d6e649b057dbc5ae9759da5d7b43d5e25a400e1f92e9d1aa, 0x12256b3b99d31d8a372986f95d66cc139dd23e935487da26b3e249ea7cbf91ae, 0x238965d658967afa2bce50ff18cbbe535327c65b0b76e50da30739ded25eb492, 0x23a6e143284e8f238c4b632ad78ace5b0dcd94a897cb05d1e297b4880e7433b2, 0x24e13a38f04d5e0fc0b6b6e0f782a6a523a8b3b0127224b8e23751b9cb9f8960, 0x9010d73677620aae1b0fa8023ff1c812313ae9c3bf43066ea60bc1ab477a7f8, 0xa41e5a4421defd5ed7acfd48401395a409a67c3edf4c168ce3368ed944212d7, 0x2fc7d17f3a9afc1de289ad0f94126aeec834498120629cc87c4586c627780075, 0x1f86e3e9d147ed604c71e1fb6ef8459cfc40001bb4fc5ccc2661669b155abeba, 0x182d8f91ee2a9a26215b35f3c0eecf8ec5cc360124cf6b903e70ca83126975dc, 0x67d2b612d75f4f974312d04ae0fef43a35b60ef054c0f475302c55fc10bdab0, 0xeab3f26417e6b53c532072de92d4aa78ccdf1da91660a461abb0f9fd7bdcd7f, 0x18af61f6184ff85f104c2bef179b3ec5a5d242dfbebe8e27a2918f620e8a5be8, 0x195057af1319e24df1b905c6e2eb2957003cfc34b001c0e54b9dcf2ea5df6be9, 0x1d952ebffcbedd26036c54a1e8a2828fe320adf07a286e7f2c211b47f6c3ee86, 0x370b757ac6cdd46610eec0c22d43a543d5e0482577bbdc14e71090307b5f69a, 0x22e076a3aa6ebfe996ba068bf5bffb17fa724338cd67f67ea25330195c628172, 0x126851f3eadc0183288a750153910a41e074b3544f0610a51273ad3698be0cb9, 0x361f4082b75a6ebd23f9a6e7309d8c4e7520159da23441edd631a6ac14c20cd, 0x1abe8badb2d12353b9bb98152086a9421b7cee17761730e25ac284d6b1ed7b37, 0x15a7e64a5a46f5973e4e82a263ef905ed64f182b2041baa00a1359e7e9c5eda7, 0xe154ebd50db3c2864dbe1ed72b0816210851b86c353692d1744cb3372bfa72d, 0x25528d5d31dbd77cfa6e7b1847f8e84c81c1ed5bae2a51c9e403cc754c54bb55, 0x21f0c6b896fb14220d811441629c78f8e8e27746026220e331cceb89a0ee89a3, 0x20addeb2afd20e752a39d2f21ebddc2772773b062922dc8dd3ba068836dba464, 0x11e3a7c2d5f74371beb188c6e3d7a14b33128af8ee3287546d12d7777cef70cb, 0x2d4d35acd9f28a3e6bfd601472948293c1e4f084c714ddb1a075f2eae9ce21b3, 0x26309b52cb55f6ea5a9030b01378f65d2e6b7a9619926d9b1b1e21cba01fa7e1, 0x2aa84c1ef9e848a64f748b80e279ddcff871e9c4c3e2fafaaf79159b0b4e4018, 0x2fe31b0df04f276a525b619acc4a5ba3eb58d8c321c62390febab05ecdbc798d, 0x27c1b406bd19ed13d533550b8b621186b1fd47f671e6604680317e6638b091e1, 0xcebcf30975b37267aedf521ee2bc753c3424dc4b6edf3984fb02ae1ead44daf, 0x291c0da731c016c0d6c4c75387030a962bf7a2eb35e15aac02fadf530278a3d1, 0x1216f05607e032e49038ac1458100e89ac8519a5a3cee4545b08850d8bf160e0, 0x19ae65945a1dbed3965f2de3a39ff2d54ab1dee0f333b88fb49edb3fc9ac7899, 0x2f996ae620d00a3d4e55ef7a6ce0b681388f1b7ff3875b725aea6eb9039d8b25, 0x2c825ee561c4ab6a22331177999c89806fbc34518387e807c20c359739ba9eb6, 0x754947436c3cded29a60c9e898237c2183a49db7e70e7eb73aefb4b5c693246, 0x2de5d6a7a27343dd0422ac71b8d409b43ccb0b672e978f8fdfd214f4d7866404, 0x25eb2ed84c520aba164e33f0353b5131886c0fbd18e55695541512dec563a0c, 0xa12525f0781322371fd70b0928cce6e2eaaa67b8970dcdf319df25e8019a6de, 0x1bbf43ddb5a0b0d2845923b1ce128292359cbb313c5876fbb52f5e6b1fcb7031, 0x23e8c3606aee818d2afa8c4465d5ecb9c45bde78dd819c0f35a620593c1f42e6, 0x158880f5adb96dd1398128b9ff339f3d827da6463891cca129c012c06b16b321, 0x23a1ac07351946a974c8841e92092a4ffc6aefc7fa988e3c1f7e7c87e1512a90, 0x34c460fff28862ef7a509a1750a26ed1e5960fcb58c4f48c7d267c77e58dd66, 0x223db18f31c85e98e1dd7b7245dddda0ff8e319bd7d1a67fdbc7eef56d667818, 0x99b97c878ce35c957d01b43dab07f8003e2c379b41ca61a6e56a9204fb16bc, 0x2c2b1e7c70fec2f58ca01bef5ac37cbb9471ae7914bf08df7e47dd8e3bc3ce93, 0x4625f2258edf0262ba0647cae426a486fc801dc0b59d20ec0f4d0af8cbd23ce, 0x239ca61a6ef7e501810aa89ab4996dbea8fbd47fd2f7a2c96a818e93a3c38c89, 0x227cb43b9818924f2a2588964a0ad7ddfa3df62284b4b3b10199a501ed970622, 0x16c7c5c6161eda32c65bb347655acaa80bcc98bfc023f4ab12f5b2a899f37e3d, 0x27e37c68a01530f092cd37c4a26dece2737868dc2c3519435e1f2cb88f07b62c, 0x19dd1c6d45298248ad499531f33ce002505458d76178eca26298e39a62fb9501, 0x215f5563464e2df6a8daa8c34476a465e4ee9fa0ad01fc4399b649b2e07d1679, 0xf36d166e99139b9bfc1ac3270a3d98c4afa81bf97436076f57383da50436a5, 0x1edd7c7deaf249e0fd3f5768aa92e9dad64118b491bcce12340c46f210b07ced, 0x8e1741a97f6348ed6d68f4b7bc6ec8b2dbf03f426769cc779ceee4ba1beb03f, 0x2f4aa8641ea4135031f4d97a7a2f679a8cbca562ba6aa54eae7d32ff7d04dbd2, 0x21a0a43c88ce26effbf8b9ad668056b5b0362e5009f3d80033db473228fb7fc8, 0x31b369d011f219e4a8fb21df9352878d93ff8035bcda834c3dcc41c3c2df85d, 0x20a72083579059cb659952d3f2a01ed90d21002275b5ea11f209c763baa8457, 0x19f11771049b5be81b43ca81e3611f4108a4b9dc30cd122441f74319c3adcde9]).* from "../poseidon"
}
