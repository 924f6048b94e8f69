// generated by tools/gen_poseidon.py
module bls12381_t7 {
  import poseidon(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513, T = 7, RP = 63, IDX = 0,
    C = [0x422ee096b3a89a66f7daa0a6c6c25ed0c756e9886c5bf56a2e5447a2c16b7ecf, 0x720558a150d9781e8957a772608966b04ab90159c7a4517d19059186d2957b63, 0x64f68e13692a1b56b0bd4db8317e32e2c6213ef6f0e33b365ab3f0e8675d9869, 0x26e142ab341c3b4e346eeab0d9629969b5f1ea0b2b13cba0e4a072ad6e315711, 0x562dc5256a6346197761e74c9da5635bf9f4d97813a25ca082d0f10554edacbc, 0x16be3d310c263c776ca7841e57bb29bf27bb45d6d5f1ab8ddb6be6f8027cc0af, 0x480055841748e19eb768ffaa19715d12eb9b6efd63b3d218929192f87c6f9ef9, 0x32da2411badcd7370b6e4d16a32a93ac5ed927a53ec46de193409a6daa8e1be4, 0x4edcf9a5b99a54f78f78f3f956b08d87b4e0650b5448d908614fed41597d21f9, 0x115d71fd5a60e09a31ffb4a68f01cbb594a78c3b5d1354de9547dd4fa85f62aa, 0x1098fc0addd1cc5f3fc19b06a24abbe30f10c2c68130231f6d9477b92a6c56aa, 0x1bda537d2bad9d8ed3360502299181a538eab0527d127bf2b02d6268ea6ddb0, 0x9258012179267b075978b33de9b07b71b833155d49d53843b7f08f2866fe9da, 0x2f84263e6db5d3f252f930dbf5669d35bb14860902b494d8c3538038cf5c876e, 0xfddb023e9fc17cc3e67d25257ac702e39d377ff8f1355ae97c9d02f5af574e9, 0x5f46612685dfbbffd5cbf4d37ed3a2c10ab90538e7c6ed6b14d8938769a86948, 0x4e2ec3a67c15cb67331acb245622ff167052fbdbbb1985e82c582374379013ae, 0x63518eedea3ff332068eaab2292a5a9bbe68413b716d7d2bb13b35683a9c8dd1, 0x61d53d2a334b0114303bd9d44352805f5ca14c4b2697b06c8c6ad2867d94ee52, 0x47ecfd804d645f0edaf2b84f9c91dd42941acb374d92314c71257d1d82bc7b8d, 0x1175dec89b99cb132bedb76c7164e3f39a22519fbdc023de4b929c09ae371407, 0x20054864042509515c9657d882eceed15d68cc4f211a6cc73bea3b54e7f98e65, 0xe0904cdeda193bbdcd8542f423c58f56f0d84f5b5a59cba6480b77a2735b390, 0x13caf62845ad01e59715e5c2b1e05fbfa7a4ad74b44f9b71a73b4d6475da2554, 0xd77be4097c2b58721bbd1338004897a7b7c790a7acbe27a91361e0cbf1380da, 0x64d3009a5efc6cf7dae161b77e78504e70a8829d304f8479d402ba50f7a8b21c, 0x6b7d9aed43f89c487fd93fb253de0b8ad488af1cccbd01c7a408e003ad8b32db, 0x4a69a64258a46832facb8d10193bca8e312ee39df10f8b30e33cddc4459938a1, 0x7ac60a91c630b766a95f0c8b6cd4070d17d13c771459ebb0d25518e8e702f1b, 0x2417321820b5c39294d0cd3990a366762309781fa242f6f57a90d725e7bd3076, 0x369287e6ab389c924e8972c734217a396669a4eb33625507dd308d2962ab54b4, 0x606c2f71b8ea310ca65e9737a4b03a52ad8607126f701d4cb8af8bbe8e4a63b0, 0x64f03e02570c30684b64e813535837f13d0cd433d7d227aba1cc8a7eff3b3a4b, 0x19603c956b76fab6d8d5bd56c4c3c5261887cbbfbf22c8d9680f1ae103c05337, 0x7d4ddfc82463764c10c0e3e719ef798f08fd81b330b09d38301cfa9f6709e60, 0x4543dc9b922d7ee74b3cd9552b77b24c7cf457c6f76c904aa9b38ec8e636ae37, 0x10bd7ede64cd7d8c1d537d39bfc15a786ad7ec850ef62ebf53ac3a8159545c5c, 0x26f48e06a65e921344aeb23ee7acf8b2a81b907c3839950cfce87a7fce2b5d5, 0x32d41a1f40992068900827e9d9d074de6083cdfff963d8212ca439e31a405305, 0x4ca34f45f492568bda141b19c86ab3da522c17799a24e848496e958931eec5a1, 0x371147ac1ca19c915a790950a15f25e36542bca89604c9948d97d18f0de20892, 0xa956cfffe37db97d56e9d1e1a3adee476c8b053af706d6c82d2a5f6a512e954, 0x45fbcf7cbd004044609c0daf68249fd087858de27e7182ebd434a880e8d2dd34, 0x251cf120222442e514fae75916f8158e2b985facd1e029fdd2359b266916530c, 0x6c17721dd71bcc81d864ef349e9999364f04c5466abca64070864692a229bce, 0x21a852a668108a27d0f21eeed95bb10d05c5379351d5543155f56f12ede2867d, 0xff24f3d21a7972d46511089228d389d2cf369c8f080a55ef3854399145a45f0, 0x15d7fb48da190bb902ff6f8dba0125198826ce1b88926b69a7c2c59568f434d8, 0x652adab3c415556115b779a6fc28b256cf6a4c67fd7de1d709b350bd7c2968c6, 0x151728f49c16a98a7662698f97efd51e7a309167bf2f3baa87616b5c35cb990e, 0x307afbf9f80f1f2cf65a833a9c0a4e4c29ff4b7387bf0a18dc361f3765dd4a90, 0x17d7988b885facfa7bc7d75c7d14263b78be52a6cad50c283f8439979f9e0118, 0x38acb655d63b9757c1c68db6e6c2e3400eff1b74fdeba73fed642b4655ef87f0, 0x1818910e982279a6abe09671ea5b34ec941b6fd26a570f09d1d5223667e0abe5, 0x12b8dd10efe932125441cf2733a9d876ec574cc7217eb1a1737e05aee91deefe, 0x62a99fecdd2556425f3968923f2b016f249f76cded0c3b15ab3847b50552394e, 0x4139b64f8bc826db1c8ec152a26e137a8dcf7983643d27b1acc853d084efcb42, 0x2b5cbd55bed638d21d3870f1a6eaf76ad961c50469b77e2387d758d73bc593d9, 0x4c166534c08c188938340862a07036ec96e35fbf6bd52dcee7a52ebd5f29c854, 0x1e87841cc2b9694d368513a580756e255d2463e2499f36d90f136748a335cae1, 0x38fd8d93354b33cf045827ed66c15fa2cbb88a445e80d9c26b6611217a8abc53, 0x1d5ee4595f874438b40e16a609501d6fc2d447edf835b5d936bb725a84377372, 0x6e86afa0dafb20abd2bba090755b16bf49f6aa6a3199e7d790b96576e669c550, 0x27ae95886e23db99c91c23b61e15c448bc162071cfea0cdef5b3bdf53f8b848c, 0x2b745295af6bdff4ce79ca07f72e0207c488be26a010fa01936f1faa2c6a0c83, 0x5518b8ebda87ade6374dafadf54fdea4fd294da10cb7240f957e842fc41417cd, 0x2d6d1ea977e464d9d0bf56120d93e0b16dfc44b6a51040a6082278e46acdff6c, 0x1b68bfceef4d2c851b1102ae21e8d60ca0e2a845d5976d0d4107d5c524c0af0f, 0x4cdef0c8e3c5d72d77ccc3c714b8e8230a0f6d2942b93ee1f3e45222d708602f, 0x18df89797b89c2faefc6f8d6cb3a0881d1da8868e5e93bb4f2989634acbedac, 0x6b3e6435378da56e52c5ecd47ddd83528d603e16ca1996e9c2891ee31f19fb96, 0x69f4d8fb8d223a3bfacaaf3bbddedc41f84f6216b4c0c6eb608f18508ccf06d8, 0x71803017a6c2c1f3c04e5b2c90f6bda6242dec4af6f65f909585eea48caaf226, 0x4ded086d527a819b2bc093adb48a7494c2e59625747828a299121bbbfbd181ee, 0x54d5bff207c531e221cd7d40fc57b5ac5c1ff8722fcbf15d7838ddfe7efe50e8, 0x270259efc00a23825b70a0e46ca98ca8019a018ba0c3f3c87bc59a4131ca9495, 0x64a5d9c1204292bcaad285df05016e37212e837f5969ec83ebe759f814148492, 0x23d42901fc610746f513104c26dc34f5288c1b777df5b799e175920e7639d82d, 0x979e4887d88b268e377c4d079ca5ca822a94f8b12a308598f82c58b1489a409, 0x9d49e9569fb02a6ef373c5ec6cb1d9e483603e700add7d20d98e4187eed621, 0x149565993ffd87bd580ce2ea859a989cd31d8f6e7d82429a0893b1c23f7b716c, 0xcd529b42088e277b3e86043af3ca77d192ba7cf52748d41e689e7fe06f3e2e5, 0x3f0f6c3463acccac489210965aafa6041a3c508ac839f4d654da908c9bd2d5f2, 0x5f522c69ac0c0eb97216098ebb95a6f3843b0d6ead153581e300199df1d0749f, 0x15927141216105634532fe7be10f2ceebcd98bc8dda7ab025964b209a44b2660, 0x62db8d9aa65bfab09cd5535b19edb6880d2d81ae00998becd51e112d76012f62, 0x67636decade192f4f797b67a3162cf66ff2a5ce351305afcc5a208eff63076e4, 0xd465ef8c89ebdc6f59ddebf425e3dca9bff564814dde6ec328b4fd29f37c788, 0x2a2216623ac86ae30732a278b8f88772adf1f7ac94d3ee351cfe50bccda42cba, 0x2d8d07990427a2497de047d1917d950ce465c28bac0ab96b25e4cec337df5b54, 0x3641406fd890b5272bb809c9bd702fc6a459b9a593b11c97d46bea412dc4d6ed, 0x6fa9f8f0a027321c551da24533d195e684525c5ed857f448e3d70b2594a513eb, 0x47e462b150638f9920594f5deb030733a0cc7227977bad297eb10d02ac345647, 0x5a4ce583f9e87c24f097bae8b3620d5250d8db2fa4718012a356986a84f001df, 0xb894077ae0b0ccc14cf700474865f930e4537c23cbac50b3d1595d1d7987fdc, 0x49decdecd23dc870b1eaa11b0c9950da67e62d338c39144737735a3f9d92300a, 0x2f273599392a227338deb030b6a9268fed7f5fc6de9db50b5cc65f45437a6688, 0x2ef0fcac32e577703d190ef311f4967cffe60e230b35f1089a353bbd18536a78, 0x57c16b1b1335ead1dd833ed8f763769e37381d36c2f559f2868ba5931a10774e, 0x4f175d4896668e4a53e52a5f44c0e0be03278abbf298a8a0ec52ab525944ff1, 0x42a29dee94a6f0b98d28661542bf3a7b2d9a9f571a0a5336218a76107858bdb3, 0xe61096d2f20dcb97ae11052df821c41f5fdf47972950b1d961058de453fedc2, 0x70853ebde3cbb4b95d45a2d07e6ec30e544ccbb55a2c836294f7ad45e5a31089, 0x112891f92a2d8f1bd9464d9e1e5f8de0c7cabe599c61c5d14ac9a56c42485056, 0x1f55cb4e856121819f0344543ef3b188a4661f83c09a61ba54232f7ce6aa7d4e, 0x4f50d590623fb85363694f211ca3010cf4d2f6d995bf72763eb3057638fe14c3, 0x590bf87b3ff62e563f2bde2b7c0291ae20443b6a8a1e1f391e00f963358734f1, 0x76dfba19a2dc45952f52164c9d6c0ebb099db737d149996f2c1523cecc87446, 0x72bae6032627bb3ae3118ab9b533d764faf6eb544d71777e5cf43c1ab3b13083, 0x22d622c3f52967d545441157514608bd1b0ec9c8c1a28ea43a862c73c971d1df, 0x159bf24dad4f922678f0a4ef34d03bdf832e8aaa51c2bb3ee2507697078a9037, 0x6b9da67fad1e06076d8406b9b65bb57cb2e158fcf2d5280af17d9da3b32a723d, 0x2f32b8c2333af68ce48f68938eb7348682e5eb3bc20810c05845eae11a916eaf, 0x3d3af059482c21f1078f00ccebfa37ff89f82bc70211b5f08c9cac8ee05bd26d, 0x2a26dc6bb36882ba9d0aee8e2aef9a984901545f43a1d2ca21413dd88cea9b34, 0xe47ad64aa28f78cd25d89651aec6f349368b04a40eef4dd3308ba2e809cf62b, 0x13934ff2c568f07d2e3aa1033c5b3f0c1e07f3dd5954e8d97414cdd92b2a737a, 0x57a7f1e34e443b8359ad57643dc449d34471f637f237bdd3b5889403577b494e, 0x14eb088e0e8f2e2b17f748bab03b480e11b44f36e8eda4d572ba1dd6a08de2af, 0x3c9273a57da3cf7c31c7ee4a72c144fac5e342ad3c796119486290017d96c797, 0x6fb9d918aac4768a46ae99c76228bad1ed3d50310b3a71b78ba61746cee13b99, 0x1312ce3bd0f6bd7afcf009b6cdf4a1b9e4181faba1996ad5fd355c4167f3f5a2, 0x5be44e5b472dea346f4b786d725c0f4cd0b287df5c23a10c02924d4dcc8282c, 0x70ef790eb1aa852c2c48e9b0e976c6a21e10e3b2abc686caae9d341e3f0b0417, 0x37e727e8d7c83e7b5dfd4d284da6be2ea70e6e1abd5e0d68526e96e7b5704a5f, 0x28032f7f62f3077fd2efe07a311c632be3e2f0ab6b236ea50e4daab4fa930426, 0x4ac9f39f6cddffa58060a4b5349adcdc2cb9d59ca062189e788dceb8ab61ee40, 0x4ade9281d0a0d039456a54db05244b738aa2ef8cfe0d92ab72df4dd2bcce9dd8, 0x4efcdaccbb244c58b048cab217a953027cd2e9c7947501ed93058a46eecfbc22, 0x5faac2727490171d84f79f496c3752bef9469c5211ebbc841c6018c4c86e8418, 0x524dd2f14328a7feaf273bb8bc8e3ae7f940f3b694801042c17912d3e31c7a0c, 0x34ad05750095d2d8782d6e011244f4fec7c8adffc9df78582ebd8f60ab63074c, 0x4b72dc5b06efae6285718a50b0bf3596954e97707f0efb9d159164c89415e2e5, 0x2ee4e0cfecbd0e111616af8f8eac281234286c13c04dc77a5a18de3f57370f2b, 0x30e8eae8cc1500cd59188f74e1b802f734cf5d3524b6d4afba93906323db207d, 0x1d848a48a4dff61f271eb9816cb55c54b6caeb654296e43cd11c4a268abc08ba, 0xe6786a797e31bc248f472705aa0ec7215074e7218d27c8e16f24844bcc56868, 0x27a12efd36d2df42324cebf995fe9f6f0af7ee8ce5583636270baec520261b12, 0x3e6e570fa3770eb945f670a6ba28df7de2a05241ead4720660b1add53b0b1c85, 0x43002da7066af9b7aaab94c3831adf461791a2b96ffd3f3bc4e5afde14ea4ff7, 0xef84b170d676aa1b5652bb6684d7d0e8fe2e605d0cda34cb13f3975813d316a, 0x2ad21dc3371cace8ad74c8fb8a381aa10dc07c3c404c430047b5408d0403c217, 0x514c1a60712f80d1db64f9e867d0351c093c78aebc9e00e3894083c6618866d8, 0x466713ef93fa881dd1aadcab230c8825855c58a910f840599cd4b01cac96719, 0x5b9e36a2bbb59722ed261962efa81568d0dd3dc48fa9343897fb7518305e9cf8, 0x5288604506e9a24d8fe930160e703a1ef37e4b47034d478881deae068d7eba4f, 0xeb612e5750ec68572a0ef8e4f41c223e31f88092acab19ff8f1ba0915424200, 0x4946ca4a12ce695fc24d2da93b9a02d83f6dd09581926ab4d7e702dc45d2014c, 0x57a7998c1909528aeeafb9df61624b8cf93ebd4765e86d3ebf60a3607bf5c44a, 0x14df7fc15247cb188ce91fc900ae4e00fc232db36db8ac2422d262ff7fa14004, 0x3dbbac61ecd3034e1fb54cfc569b3596d8abf384cc83eb6092c02bc33e7393d3, 0x4826aa9818856e7252abf12e71f9891dcacc9cc5e9b339a062912d2a0ac4f5e0, 0x4953099cb792b7db5baf9d870a139ab328a987995d99fafead546cc89f6eb012, 0x61a36b16e940366ce17c674463ab98dc789fea1770a70db15a54fdad09a8e9b, 0x3478fede84264a550c813449bd6c5e78f615884d8fd4d3663ad42ea81b99e659, 0x201b2ba08569039b402dcf22d8ecf0f3e2a866d44967cfc17faa53a80fee73d0, 0x6c5744043ea97463288a3f84a9ca3c906e3ebf981e25bd607e0a3df3918e1b6a, 0x4438815daee565ba4214f27cb38ac50bbad2e0acbdf0edac14d3ae4af0982049, 0x1810caa2992596cc966ab5d8ae8cd84947204af2d60b87ac8504ed1744f3a0fa, 0xc34d76a1193a89cab81cec196c46208b5063b58916895975e6b22a788d943bd, 0xefa0ce29a23671c4953fc8502d7474ef3d328d94d5a87f9d727775c2450dbab, 0x471b9a7dfb583e6af5452db7f2fb791f6c3a92a08021bcd9d35a6dfde246e771, 0x4397df4d8031f50de7966ababf6b3cc90bf56eddfe01c8c5b80ee3eb48b6bbf7, 0x3ec2830015ab726fbec05273f11dec57c28f8aa4f1af143af01f5af5d13d4d89, 0x6a8041a727e24475b223e77d90b7e2bda112bdb5b970bc57dc518c2a92b8edd8, 0x5d25c7fdd9f1b173f6ff720fe6c169baf3f7436c629bd00a78e153309f0a9bbb, 0xf3805ef32fd474d38987a8ba645a2d6909b15d5de245199080bb18861c1295d, 0x4ae778b9bf3e76c798c9b0e3095f233f6ee9df64b67a55f31d3951917a3b24d9, 0x1eacd80be73deaf680e6d18a3f141046b198f364957203be4a6c4789eb10954a, 0x541d90d27ceb809873e3b8b53489c52ca9a1f3a3eb25491a4445d53828aab07b, 0x3dad542bc38f94a81f76385997aa34dfeedfd410bdf7bb81e7989c2161cf142a, 0x2ebbab18e47c19ab85cb14dd396ef779ab0ab3981c0b8b08c04912434c361550, 0x2699b4c8de600dd31fee82223a6ea5e4bb02682f90fd610670ba4ec6149814bb, 0x52a9f6132f72122aec003275675bb25dad42810d1dfd4c7b14cfbccf78ece28c, 0x50a2fc788caf09fb7336741c9cd3b937188f422d33794a4e854c63d044607406, 0x32cd7abbaf13478472964618a5d3256f5ed48009212caf76e11be5c9ebd1ebb7, 0x61854e78ab4eef6de928e65a8f662acc5c659749633caf3b97067c0312242f10, 0x4bf15a62875e5437d5856cd29ef4c5ff47c375bf63adebb3e44b585d2a437104, 0x1f4082c889fb2b949c4c726f791fd2c9c01e82021244bed256a3bd4a181dfff7, 0x3788ad52b1daf27eb060ef2b9ec481dc912173e4b710e7dd4167b9352a8785e, 0x5baa62f4a3093f358f9e05363c7391f4e3429a127b8ee8c2857028a316cfb543, 0x15ad33ef1a404742adc78014e1fd49e7556afb23a8979a01b49ec91cd538d52b, 0x68c4be1dd98b933daec9ae2f807d5505e5d13617008f64dc6b121765ec1cd1d7, 0x39b909cbd9fd558a3a154449330c0f4890705bb3543d50e2eedf919b7db01f97, 0x4376405d812fe32e9a3ba0d5fb4e09182a7ca4c9c58d59fd1f268bb59a8de3c8, 0x1066431bfd009f2c78c6770367684545734db026bf58e5ab5fc44c8666f7363, 0xd45b3072d77de64ac8406e49588262158894287561e741f8d5239b5ffb7df52, 0x1d81dbc943e527deb0a218c6903b3c9f88568c4854f20d545a5d14077f0fb7ce, 0x4c37dc3b520fc22cbec9f98ed6c0d93b2a03108bc84d40d57001e3ba51dfabdf, 0x3c9e7836a36d9be975b5dcf06a45c9b99cf16138c78cdd60728c66d70411e9a, 0x458794fcc35ca19a3aeba2151ab3a65dc63a9606a0f93155e71b51e9300f411f, 0x20b651b95f007355e38d353ae9a92b3e7e805b6ff5acf6c1bcc0aa74a1893aec, 0x2fa5e768f504ac6ae970db00f043fdce0c00eeb0ff59c9aa862c9224d9ca15b8, 0x61dae5eaf3c398b0e7383493b1d91a390422707180022b07632103b2543866a6, 0x5a1c0a9b3634bf99de2f91316995e9e737943609b415a8be4fc2bf2d9c7ff745, 0x730125ea9ec7095246ddf128462749287d6b16cc8d3e72ca41993ade17e554f7, 0x4fd99771a5ea143b720dee033b68917a589cab05670b2c339c28ed5eac9dfa15, 0x5e5c57ab979fbfbdc721b642820b2d099a00926713e2dcde019dab053fc1e383, 0x49b2d302dee989a43babbf8822bfabd84427984c8b082265a9b8f2c2d856739e, 0x2f5134a40c26a1cbc7d3c3bfd817120eabe8ac5902a019e57bdbd3abad584893, 0x5d458d20678ca5d51f92390910313257191a8456b371e06e016f493f3ad93a9a, 0x1d46f55c94929d2b01441d1676011e2a9e42856e6ecc4a0357dfaa3ddfd88b9, 0x3c44618f35c6ff83d0d2302e131f62da3f77c1ebad60b381d90f89d44fb8bd69, 0x11d6ca068f6a93c4861f0405c72b1ef847d91671834a46363ff3e90116852cee, 0x1c58c8ed0b5808131ff6d8782753fefcb462903c84a1603f82f38ff23a96454a, 0x1eb768ecf0cb49b37c259aba8802e7c32472eada647f6f119dc9d3a2d1b06e83, 0x3cca276a69fcf72f0844e0ef3eb6b13f1179a3332ca1d7fc2f466201ac5164db, 0x3e43fa0bc38d16d92292557dc767dcca0c64947d6cb051f1dd371be4385a6648, 0x4c63cbc597eabd8c4f8cc091348c71689c2802e69d4903e0879635fb0ed1549f, 0x68b5d678fef4d4c7ef9b284443bb6fbde80e30ba0578bacc239c38fd9541371d, 0x70eea34f29c048de395eea7637cfc45db5dea6959cebfd619a05a60d1ae473cd, 0x2a8b50d2d6ee087e0bb0c3cf8129e2eb3a1d6e9cfbf2e911e7b9a8718e255477, 0x4a6111b082b833968fe72991ec1c5c086b0f9c031035a8aac6fc01ca377de59, 0x62808152a056bbf6be24c7fc29e5ce9e9fab42536e89044e1264e1cd22e8bc56, 0xd4be4e32077105fe7f628d6efd77bc7689cfff8039171620fac2d6f82cf40a5, 0x2de200f7ae3962355162b2dd38b6950a1aea747938d1a4806c3837c95f5b4ae1, 0x27626a07f51d02dc92d74d2a56681137467a02c6f702b6a36e34bfd7b4d5e449, 0x5ca9d2dd249d942d139e1181f655aa4118ae5e51c5bc40f7955f5dddb11c3064, 0x20cf55fb9a146514763883ecb646eda570125dc96aee702a5f007c8abe9e8b0c, 0x6bc1ffa9c62ba45256b3fe0c6d3bf07f9810e1a4b261686651d5da253652fef0, 0x1ec5bf04c0832e56dad8e0511ca67e73675d752dd4926a76bcbcb40daf18d8fb, 0x43fa4ac639f23a8b80c0d4a7d9a85f4797af899f2fcd825f8a6e46be527cb706, 0x11c25d671c8158c1336dfe7aea4bbb2b386d532a434fd6d1615a48bb57ddde31, 0x7befbd56157d60acda4a922b1781ae07aff8104eb96a1979a73eeb84b514187, 0x5df440e4f42cd1e7dccba3bffabc13080b75a84b725e88af2840dfca6d585a2, 0x552d67ff1717a76b0dee6bb4897310c7d409771c72e6f5f71750dd7854aa397f, 0x670797f9b094fa0597a9e8accf380ea782b4a32edde13406274985d8a93d0a91, 0x4f9ffb388b197b54ed5620f8225184a08b4511dd38b6bee96eafc8d04e83a404, 0x44123244c9fc7781b78648d1dc4fb15a3dadecc8ee8258db032e36291530979c, 0x1d5383042228c5af7c64fd9ac8cae946ae4a33c0db3c9215045d508f0d1abd13, 0x2e2eb4ad40541c7f8705a099454ad38b89613a084235071fdccd32c1ec501aa4, 0x4fcf07a6d6297615762c1a39200382fc3251ae92442d37bd461e83c7e69dc249, 0x6ef6bfea5933b7d50538ecc2313b1e36d57900f533b0fe66a0d1ad3d44bb1acc, 0x271a4532a4c7cb877af40c66f0dbb6ea1ec24a53a2df88cced34ef51e7693082, 0x3e4c6e3ef1566173a3ae5794849a9959e0820fcf27c0ad478c719d40e69b3ffe, 0xef65a21c0071de7073eedec4bbe0136e678366b71972da1ddf03d8066a7d768, 0x41938af204892d9b4b36abbce6fe031bad2b2792cc53a9006b3bf05a1bf9c391, 0x460d1502b8fe65797af6d63a6ec10bd1a08c3a27a9ebf9166441aa3136e45bc1, 0x62453299a0732ba219955055621cb3250e83e7807ea4bcf9cb038db5c93b7d79, 0x1376983e33972df84784bc706a19f59af67a4b215af20843124c28eef403e9b9, 0x5d909575e886d5b53c3c43a00dd062ffbbc3daaa2054f803397bd3870a5e5de2, 0x1d24d300518aacd5aae174273eeccc649ffd315f5cd6efec98e13002c7698329, 0x23b223a38336f04c5818d9f476a9b36519270a41f33ceaa8af3656c10c8c4ace, 0x2bae79cba303c3d5f8b5a2cd2b93b8199c087d86dcb6765fd65f4c987c0b2221, 0x179cf5acdae3eca7e43685a1b419cd2f43004c2b87dd367b4e1246d5a4756634, 0x65668f3e171ebfa54af0fe8100ebfa63309ef0d95c06ad83d6582c81a5190c87, 0x7126e815bbc19b359e25138a650a4c666dc8e019c8a9d5f4fc9c4aa065852c23, 0x3aa3b3877beb68be9d8b179efd117c0e925972ab55c244e8b97657c25479e870, 0x4d12e295ab65e9bb6d6a6a8eddd3a9738ae2099eb932bb4eaca3deb95ada4161, 0x331a8e506216e89337bd94dbf1a1dd1ee90ce7a7df81f8c2aa05881e3655eafd, 0xfed259f47c44d68503a255bedb142608e440f67f8639880f53b59332d1213f3, 0x1208dfbd5280a4d097da2f6897630ee9a42264a21d7ba7924e66d49e2396a276, 0x10925738fa93f6d39a0a3e0e5ebf57593a6d934c3df204e402b72cfa79351b25, 0x5a14d253ceaefcfecb9309a137b3c3bbc1e04d66111b33bc8f83b1b690811f35, 0x3788d306a85315f9c40d7662a550c18df8000d2d70d41e4773ca2978dbe3d29d, 0x37765ddf03f866c451f1fc8dc0ece2c38cd76c942ab08c9cfa12197967ccee27, 0x390ccbc70623e0342bcbd3d58ee9610d5d727f53a7c0e2dd60fc54f08b09d514, 0x5f92b334b51fe384104b9e2e33f5dd9f0bccadd77f503187e3935dba0a8e77c9, 0x5917ac838d1fc9ddd2b15ecd53ebf369053db49c56dfd9271efe651e0514d6e4, 0x6cf66781ab0c57612186c1afdf019481243d4e2048493e602b69d56f862015f3, 0x42c24c2c09855514499fa06c5e754182f9740bdefb49a42a2a6a36731021cbb, 0x370423ddb597724a261a634dcc527ee86e09ceaa6b34ea71261d6ac4223a163a, 0x69cd916cb29cb893ee460e9861e153575c72ad6b3ae24abf708614011b601ef3, 0x425defa493c4e17c62ac0ced12f545c4a633283da7e8cda12560575997fd94c3, 0x39dddb9a9143746a7e1c86dc2ab85ba1f6f97476179021c74d1d74dee50e091b, 0x2c2ce16c2a26bcf43ec0677ed8a2679d9b8b035d29937b8d9978426a902b778e, 0x5cf80b93f76752acb645c533be6a13edc8802c0b1c8072d6ab6dab60ca08516a, 0x44ac1ac7039916dd9783d4dda48760f8ee2197a40a05e722ca79993459b6dd40, 0x34f990f4e7a60118854fecb942702e9ab8c8fae55eef30c63b429bf685640edd, 0x71b82e655b769b4b92929d2168fc9b1a8b575894be2c9c3893ae24d6f363aeb2, 0x5896767736675ab60c72ac07891c1920d8f0ca1cc4bd058ecc74228aa7dc904e, 0x173668f985d8d75741849f82a2e40e565915db6b40a96056a022131f29dd1534, 0x2efaf2a814a646c34d8ff63134508e919753f805a554d47e89eb3efe53283697, 0x3ef14a9cc7caf07e0f2fd19315a5c0bd70c6c79f2f80bb5694514e0617c05bee, 0x5b926a5a0aa5ed7a8fe5e52ba9468bec59700b194972a3b4b9cf9ad3a8ce3f7d, 0x1bac3a30772fe1b786c67a93125496899d08d78e45a0a1c000d86ced21607f2e, 0x5d7557fdccf022482def9c9c3a6e2b46fea19014dbbabc3f0401f3d7c50ce4f8, 0x2e4c1bb4f9647f131b21a5697310c1c791050505f28eed74a7c2325dda8ed15e, 0x62a7e0831760bacfaf307a0b95f32098f02951bc98b2996f297458d95de98fa2, 0x4391e3146516d54a255ddbf6fa5e75fe0b4556244a8e40046f0df63a1e0143b6, 0x6ee97fbe597d3f1000e8912f00be22ab18154bc62ccf626fd1e435d5944d129e, 0x3a80d870bbf2f2e3dba4e216a88831022766c47ab58b01ff1f57411323ba545f, 0x16ac43c89bf2c2f650c9dac166cae47df44024f33dc2e6864a86ec5ecd5874e5, 0x388c5f7717a3b4da6bd347a3cea45a3f8590e293b56626702021dc1be37834f5, 0x124342e2b1e684c9b94e31ac1ed91e0371387e1f3795cf28d5c339e56cbc3deb, 0x58ca92744758b8faf5368b3dd2a793a9feeb2236ad5de56482558eda5c45f9ce, 0x36a85406035c57bc17b154e0f202ee214a3002659c11dbea79690139decdec97, 0x529a1165055eb74e3eb2743c17de022cbced3aaa88fe1bc99ba2d9690e69b757, 0x4026c680cd5d9e587738cf24228f8bb92c9aa112e9845b45d9f8c4e84fde9251, 0x15869c4754c0b8b8f549430dd7a50d22073717926c4b9c8f8245c6c2a8a5ae2, 0x6ffacc344dde781736be7e16e4c630235e0fcc9ebb1c6fb804e865f90808a667, 0x3efafa9dbe81f928d93d6ae3dc95c0b560cc831b5dda47cd83a660151b39b910, 0x33c11d13ddb5d3ad82449571fb2da7e354bea13559b64a3fb91807b66dfd485b, 0x4265e1ac32ae7d964130ffbd1a50a0c85d3e606236d45219aea06a2dd8812462, 0x23aec77100b056a871a147e24b1d023d1990bd16bc9ae6df5d1fafe7be3a4664, 0x5e374cd322eaf1ff05a26e8b481071109435a32180b3c33c5629e04993ecde29, 0x5ca58b3817304e468bbd9f7d5a2dc6a24f05391246fc732661fd658cc653bb76, 0x565e898710447d5d6207d90ab36ecff0058ddb0aad6605c6d9a4e29868c2eb11, 0x5a1b5f33267ca163f008cd9338e4524110b27e422fa89244ddadff041b6b2ca0, 0x39728d7b334f111a9c3399718446a3ffff2596bebfa0e6f5a36f4eca7a4bb968, 0x448a5fbe5aab389d5454cb4330db8e9d39bcca7b81f04dd5e8aa54b380e17727, 0x675d4a32950d7b07ff042e16f89873b0fbf5784ec69c1e1414be6e57577ebb04, 0x5c7b0329f9ecdb950be75e09263023685b8b1df840b621f857e0ac2cadb663f3, 0x49064f1c3c9b79714fca06bee3fb00955c2a1135a8a8e684d10273b05199cd2f, 0x4aed9115136ea0f48491c215c78c8b7e1c164476b07af81b0ff85cd53e4b19f7, 0x277341b8e206362d1d0ba3be893bd3b3905ce2e22b7d837c669c5e5aab381c06, 0x6491e41fff937edad5a5228f4072d90db45ceabc33856d6bd6963348bf89bff6, 0x3ff0d198ace92abef66c8d8b840e6ee503970e02bf455ae8d300293dbf9d069, 0x7186c906ab9e253becc906b2f41f7cb95a5198806238ad96f4b95f2e09bab944, 0x4bad7db8313a0975cb4260b413b05606d4c1a3e4e9e332e3ac419f2f3fe004d0, 0x2dabe1fe122c699240c1f9cdfe7029966dc14e536c6ed4e6a625573499a3a0eb, 0x4a706c7ea343429542ce145748f62a55f8297cd6ac4d4646c5c5c1c0aa603e68, 0x58a9c8f6616ceecb6e8a447046a98345232db89c657259fe1fdaab25a081f4fa, 0x56b2381f58254ca5c60a55c22089e96e37a3e8f950212d60d2da5d70722ae5b, 0xdec08ecf7505e84ca2481d0f4c0fe9c1db2c0938383054bc03e900328f24189, 0x33903fe628b2d7324c5d44285b56254b72c74dd2009ad3d8e88aad3140054c0b, 0x6c637f35796a8fde51e1658b14c253fca2d1bbdf967cf1091c2cb2db7674125, 0x257e0a780e2e6ffbe5795fc3da5a9fcc3227635f280ab18e26054e23a283c4e5, 0xb3b4315b67bf85e03ff7710ec2e2fe12bc0192fd1bc9b42a4a1d9e7163ab15d, 0xbfa3966b428b0ca8bbb9d492f3ebf474f9f916eb6d224988761a76af63ca5bb, 0x65ac7ba42b886c8fd02e1d62cd3c447ccc619eb799dd396a6003fea0f51c6ca, 0x63547934e7ff5077eb7133d48b0c10563d396ade3f476c3278ba830dd119fee, 0x582d62bd873be46f031c49369d850e378f367e432548c4a88d49df3eb1e738c6, 0x1db5c7fcc85617b5a8f9c4c3caaada5fe4604e4c54e776a547700bb0fed35060, 0x46b054136e3c50d7216e4d5050bf011350bea73f02e4ece49a797653176e8695, 0x20a3b31d1b88be555d5de92644ab6f32e40bf244d103dbbfcd9f1d318e832320, 0x1c8409587cda320940237ef548854e8af662991d38ef96014724b9f0df6847e3, 0x590abfcb848d5556fc82419bd4341fd065bae300b6aba3cfb5aadaad598824bc, 0x661089ba867c6d8e827ead5a3ac85e3f75be9ae0e41f974e773f5008bcdd0b1a, 0x1ff12b0f2fb5ef75bf5a0740b750518302ba15b760febc05f92046f0e75d105f, 0x64f24f626b5e32cb8b3f53b505d78e26eba371beea765765ae76d5c88c9c88cc, 0x394bc735c956c2bcd61a34faffc1d9d0a6d14bc5049ec89f1db8ccdbd4fcaef2, 0x11b00be25260e04944258185aab1af90c432ed8e0e91b9e32b432a10fe67539d, 0x6d341c38a315e05f92c376e4212035f7dcd66a027889f17fe83c02d9510b3cbc, 0x61d664f59fdc4f20b327adba394ebed4f6ac02ae33e37d036e30e093917f91b7, 0x411f26622f06592dc81684003a56f8b9a25a46b2117dda55f035fb76ed69dae7, 0x55506da193645f41c075550fec7ca138b331f838197cdb4c0000340daa4b0f7b, 0x4650c922551e38899e1b59482222de96d94a0cf1371645143fec95bbf3061f31, 0x5f2a0f53813184535df0d67860b27431849a0856db4eaf69e289adb294afd5d7, 0x1df2625c24eb192236e47937c77bb5dd16651bdef18b2ed01ed0ecd729fa4441, 0x7b79c110baeb1a40f5ab7f4989e6fc7821b35de0075a60a52050a04da86d632, 0x320819d299124d2a8da2d7d7f796f3f3f8c42657102b8c89818b46ec79d845bb, 0x2c9ace70c19a5068efd78fdda516d54958b68df40702087e33d303cb5073fd50, 0x2580e7638539c7d53518adf0b46ae88c9217215925eceb0a7e290fd9421d08a5, 0x1c236e54a516ae40f96de77eec7c6a3e6d57bd0eeb4d4636d2f8d2decad6524f, 0x1e60d92f0b9014ab1519774caa0b07db4522a017b99c781bfb279a2c1a027bb, 0x5321c88584a1e28f119906c618945c935c94fbc2902a127bd38657339adf6ce9, 0x4f4b8464d76d50f1b055f3b06e168c2448d795f459bc377bff88d647654a587b, 0x414604e676626869b9bec09f8e111001593f35e68a3c04a9a426460e3eb6f01, 0x73a9975f2b5bb7a2eff21744f25f35b3ed2df3912d73ac2f4beb761f5ccd4d29, 0x6d347fff8fc8c5845884a773ac163d7836cfcc6a55e6d0e51059eb1ff6bf943d, 0x2dea9b735e5c50d30da9686f93dca9341eebb708cfbd61e017517f80d7450368, 0x6bce839e3091f66a2ee60aa0d8ffaba2c5839318d13c27f1da3e3783f904eb5a, 0x42acc157710f52bb60300afeb3653360491982818a02ff3807052b940ea83d57, 0x6e9efc6f42d57ec1035fd13fba93f3bea795836cc21749198c1cd91f280fce1d, 0x61481714765eb84d1135acfa723b84a59e5a1782fb3e5080af7e562e66585756, 0x55791d5461b887d8c2ec27a67bb9d4313ce9a0abf8ec4d527cf7e422e07b5d73, 0x4e2b1f9c5dcb1fa996a431b46cf726b5d7391b05fbe46903edd0adfa3a41ce97, 0x209606f9f6d1353538c8f449292912fe69411bc660cf27a7f897eaebd5966c80, 0x2d7a080609e7a20b2e4060fc8e12b0a6ea3237e040a17312bfc6e2097f11a9ec, 0x5cb48dc8a063fecb84f0a08427a54e9eb86d6a10ddd46edf51efa1e8b4d4d30e, 0x1938c0e1f48cc676d6d7c9c58bd94c26761ce422445a8a3f80313ff25417d135, 0x507b3f2279b10c87c4074d587e497ccf433659241563d86f043d4d2957fb5ca6, 0xf38c0eb4324d693c6d001a8530636c1da79b4508263be1f4a1610f55ed44217, 0x56b77e2b739159c5bc2fea4d894ed6e3e0f846462a9fd446bf13af6fdca23e8c, 0x3d4c51516c535ff828db474b78a3f1961978a5ba04646d6622cc028a678e9286, 0x1cf3d526da6fc81d35cd5f5562088fc4f00fe08d27fcf4dbcca4cb4653b3f478, 0x51d29e8994cc2f94d93b163f665b12ace64fd707c098dac47f34745b4ca9eebe, 0x3dd7e9255a8172e93ab4faf2520ef26f1002b993f3304350be8009830957399, 0x2c5c53bf007c88d713e60ae0ebf32c88bab4e1b974641cb6954174608366653a, 0x92d941deeedd9303d80793e6252e3a2b78b1c9f899b917e08be0b6225cf8235, 0x118bd79f14500436c129546283882bb362773e1a7d2f344346a5d5fe8d930e93, 0x9e3d967e19c8699cf921e531bd53dbcf595ba0cd2b8bc9db6b9e630ba9c160d, 0x1e64d0ed4a455eb8ba2222fa280d4e9e6aabf2cf4584eab874d3c0549c9ad604, 0x5c6102c117cd509304a0cbdf1b91207b58dfc62afbda94b79a1dd956c9524020, 0x1e8b56d3e64740921ca1df81fb4d973efcc1fc0d301e331c0c2ae2195c5f7b7a, 0x1949f34935ddddd3253150c899d5982c119d661b42f0b2d86f3b83747036f00, 0x737857d23cfca125db2ee56f3a91c41fbebac55c2da0a8a39d93b44c3b6ac52c, 0x35c5d82f7292b5784a2f2531904ed14e0c77738ee727c703b822c9f392bbf12a, 0x5a016b1a47db35798196d838e2bf8a6b0269f20deade11bf64152281eac33783, 0x25d7233ee09f9ad662f34ab7187e241df94e4b90b12ba3a94b48ee20b55c5903, 0x55532a9f376847d746043e67b09222f681427471ffd6bcadd6c838b29c3061e3, 0x17a3c22355bd12da93e16c098323899acc7bcc9f9ba512827733ff093f96e7cc, 0x60b74bb6acba3cec4ef9e96e8933d1152bc9c927efc0869e9ed33bea5bfc7442, 0x18aea1e40a45103316fff0a3b9f60bf25dc3a886540bb8586b5996014c8aec80, 0x1081ac00275aa2faa8802659c995b98e9b2cfcf30bf62488b9d8091a6f89b876, 0x5912eab28e0dacfac369cfd0588a8e63a981edf3353e0a20eb2300db98ddea7d, 0x3d6462c165b1e0aa3dcb7b12c7ecb425f9a4bd4232ceac304a270966208949af, 0x572cbf192d09b5beeb65fed8aa1834a3f2a6a3076b4f2864be9b6108b693eaea, 0x4fb1a175cf859aae0a65ddffcc22c2bc346d45e87e90e648556e8d922c6dcd67, 0x384db00a31172bbcc078578db6ce213a82d7165afaac1273c9b173edc6772a99, 0x1ffda3cd9ce45ea4a0850c9098ffc80ac2ef4202ee55b5ee1c9ae519134b7331, 0x58ac19ea06084fb1b4b3b60d6a42b65f8cc0843a42c6277e0a3db8651f621d59, 0x5d70a82432f269220323063f3618c80b781a5c6a3db1e8c88d01a5effbe2ae15, 0x38b1980fa9ac69c2e0d6ea234e5e54dbaa22c520773fbe3584840591af82c20b, 0x6b194b9fe919b1f0f1e135c12424c12ae68f381303e0fe065d1b8c94459662a9, 0x2065fe2be1f4db80f6dc8d29817f32c11ee28fc84e7228a6d8e98f78dee9f38e, 0x495e372c099a2b8585eeb9ec1ab148c700de3dda3309f67bcab93e53cc061bd9, 0x3d95d22ab95739293e234f5b18b1e51716c697bbf39d780acdc1042a24e9659a, 0x6dda7627233676363bf1941dc87567b6e5cef6c231ba0d94928e8680353cdce6, 0x60cca9eedb571dfd2c778c416bfba27b01b459817ed826d90b14de368dcc510c, 0x1326159bd04a07a4e64d00c9a4827a2446c111bc2564db791925f40e661e4c61, 0x6a62ad1b5e7780a1b151452e887f8fccdec3e5dd844ada685bdc420c8b5ad420, 0x24da2b8c5c1bf090566bf7a9470b481ca0887b9cff3606cd994efc87da9683c9, 0x41c12006e87c083034717dca3aa89c882c0f081fa5240f308a5a8b384607f08c, 0x4105b0f3e7e2d3995ca41c14d533c85f0a665cba0d53dfd8ccc1986a1c392fed, 0x6fc533a6484ad13f11df259edc2655da99d8de90c065b757c9491761feb0845f, 0x674d178e9774cfffb4e471912b0470c091ed62e7e2d900fe34580651e7a4571b, 0x446b1c88aaa0739a33bd4ea5eaf6c83a2f84dd0b66bdcd9376125b53fb12925, 0x47f00176cff3d51be1f9ae8cbdee993d9154a20e94ca4e7bd3531ee68434fc5b, 0x484c1f58e79cae2d433eca3eb75d5639a2102d9b509a71654b3ab3b2fcc262f4, 0x6ef9edf5ebd4f4b23c95f8567f98bdc548199b80fded555e2a6fb0d854ef4b5c, 0x45d8aa1152b8114127c1fa75e480421347abf74137338841e5a7a4dd48215c8d, 0x10f6c59e86dfc1556038cbe32497e2cf36028f72f091aab9f89cc8c70d25b3e1, 0x27380c26224205c0937b07b56b25b88cb4bfb4183c346b29dbc7b79c4cecada, 0x3db2c490d02ac32e35edb9066734f1b4c009bae8c54f1ffa53ec6e266253383b, 0x4aea4a2aa5b807693c6155c20618c76437e8f5be6fe173727d9c01850fc3e36c, 0x466f83e7ed746c904048493666c3dbc6c6a193623ecbfdc263d388fbec4ce92e, 0x46c7381fd0c4e9cfda8d87c1d2b8a7b60188938477be04b32aafd6bd72743eb0, 0x60779a97b9afce1cedc51caeb879044ea7b7819edfb48fb4b0947672ee286b2b, 0x6748c250d723cd7de72e42490187fc251da852e2dcd627d92536da8f6a9e8ad0, 0x12554c1e54982f73d5183425b39341dcc66e71911e8a317c2fb5490240fbb4f7, 0x15d16c5aa6b8349bf2dc902e9335e5209c72f643e753e59721d74921a82e1793, 0x736837a7282daf629e57d678474bcb60773a816b29264635962a9d94717be2c0, 0x8375e620804c23cd55490b643f4491bebb4d37a660319e9ba322ebdb3c1f0af, 0x50f3674a4fde02d44c90ec28fc83460e9f7aed8f84ae2f3b5df0e97f330117c1, 0x17a5e72f43afc8e6423d085be3514e4257e2425d6a68d2a08ac231bb3c5d3b61, 0x1e34ffac8ee09ce2b2e715af7af60cab70181977635c86f02ec1ecbbe2efe50d, 0x2a859eeda8a68d815c3038f42ed387dcdb0435dcc834cfa966bb68b23ea5d583, 0x5ba40918af708dd00bb81fbc4438252ab1c7794eac4f37362a68a814510b3ba4, 0x100a799e9c776aeaed0eff4e937bd18048dfef3fef415cffe5c5bcf27387dd77, 0x5f173e7becad98cb61c47d306a8e9483b7b194e2ca8661b2f0b811134e63e4e9, 0x405c4f097829a256d208f9aaecf93ec849251e5fce4bbdb2bc127ca44b73ffb0, 0x4dbe8cd3053b2a7d3e4cae50ae6bba33287be32aac42e87b47eb5e21ec8c724c, 0x4840666fabeb5d32fbf41244d44ebaec03fab231509911271f126799590d1e1, 0xb6085aca19171074a100904edc82cf3b6816dc9befea5428a75dbe3229747d6, 0x3e4bf68cef100b2220d5abbe4fd159b34e327c51cba0fbce05abd6d4ae08116c, 0x7d274035058ac6cefb0a0eca7d14413c72869211bcaa82694a7a602950d2415, 0x24003bfe1bb73ece2dbdbf53eef6a53123a3f630c245e076abbe7c90584c228c, 0x46a73269e96b51633a1fb77a2ba1d2ea430836db9485de76cac0e2fb30c88f1c, 0x1d6378dc27cbd2d1e68856b662d81042091bb5b0e89c643d50a3222b6843855e, 0x69132fc0553eb2328b982e320f724f6bbfc24a278a602b7eb579b3ffcebdaa06, 0x65928616419c4162096797a7588dc7454e88e4bf2719f5fe706c9e82d93e70c7, 0x558e34e82cc587d1ab78909c630a2ff54979ed1714ebb89e0ee844ae804509f1, 0x2a0cb828ea0084c47871d6a1866e1c012e10e34eae4bef4eb84b0d535f0c50d9, 0xaa002ea02df56eeb2b62d63f1b58c93bb774fe9f9a12c9ac36049b9ad1fd3b0, 0x53865b86db5d8a416d265579a4c623c1c6e04a2086e3853bdc198769fce6dcce, 0x479a55a8167735d76a422cfcb4ffd8fc30e68ad5386c94871ca585bdbb0dbfe9, 0x500588bbb1edd56210f8f671665e4aa5c72b7b304a8402531c7b0fc2df2bd976, 0xf1a8f74da8e0e0a0313903cad48f53d5acb6881ce3ed459e4850fa076085e2a, 0x144353bee086a5cb0211a95f63e64d69bda27c935bdc0e19428fb0e2cbccaa2, 0x54a8941c4be4104bf7344509a5fc6dbcc5b02c967420dfb9e84ce4978e9320eb, 0x39533e209e0789998897daa75e9942b43d9ae6704ff47ac99990338eb00aa20, 0x27cbd85283e4df877a005021ad10ff0263883324c3703eec6c7d007146a8d0a8, 0x4aef7479866584a1b8c5573354f7db9c5bc96f4bd31ddb235a2e2c609f80961e, 0x73ac9c98cef29c5f6e46b89f479b48a35ac5da406733863c41d582a0d7eaddf0, 0x842d3b342ad541dd4dca99939852530027ad15d56f2c7df6df89524b38f5c5b, 0x513ef1b6ba70476ffd1c28242c6d96cf21119592c3a7f2b3d1a71b0fe29527de, 0x144b721c4b2072c88bc5de45b774c5e2556acd8ae2728f338bcf9e86aef12234, 0x4786d93cbfcb0a5ac22f98d0c187d2e321a659a1dc98209fdff4b91e314f6de2, 0x62cb0514f6843b9a5d38e4742a232324e95da0fcb4da6dfddc3ceb4107f5e1b, 0x29149132eb83d64bfe67a1ef5420597b0b87ecbbe14d831e1d239bcd9b01bdb5, 0x2a9275f59a6eff8cb7a688c8bc3a18c5ce3930c41fc41bee8d933e36a38c6da2, 0x91355043481d8763be271957afae273e0b98f7cba231e08db5fa1f1fd0be51f, 0x418119c6dbe8c1f10634fc9164a97414defd653b72f7833486100c3805e2d449, 0x88ce4f9719136de876f6398a8e4bb106f2854abab79f868a75e4b0c9428c393, 0x58359d4868e543a3e1f7e73edc87a60ac972dcf311c0709f4748661bfdb3fd03, 0x85c854f4bca66db7ec8ce65891806bbf75a0a124ceb84f469af4bb4b93fd433, 0x15f027275c8509dfe64b78f68026d2a07d17563b36ebe167a892bb7b7b85027a, 0x3e32a3df84d04b1d7513eac2c806ecdb988cc5ccb8b58fad41afef27c9bc70cb, 0x24227ff08cf1d719843bac5b2d1acc9fa0219fea0dffa67eb488a4e225b51b86, 0x69ced280cbcce93f95f0126637cb0e087dc2414aafb5177760d48e7c8464d130, 0x731a9964ce82b0314c0924a51dbc3875dc20f4f4bebb1041b81b244b583fa49e, 0x26b7feec551c185a8d39649fd94cf748d24881a53d0298ed56c4bf86506f0fac, 0x47becc6f6074ab1899a9b315092a0f2646a9927ce014f9c5cf5b5e278688c50a, 0x1ba244c7c47987e0b308137c0dbfee13813e55a2799b870bf9ddfc27a792acb3, 0xd6478e94b46ef1be4d69c837b6185a331e91f642bd608f41c5fb6de0775fe, 0x63a264e3ad460785ef420f31ef068fa01d2f348e9f240477f5c4f238710c68ef, 0x69e32909d6908c8952c02387cffa80e87298994ef3b72f2981b9a0013e0434b9, 0x63ef6926d6f42e83cc2b5db4f94fe0820839afb82fcb0618fed80fe65a63f90b, 0x19d029e55cbd3a89d898ff8489f6fa979febde213cddf79fa64a549c6d83f37a, 0x1e165ffba4a92a17e020058e2bdb02dedd2c21a28fbd14c64eefc8f416246965, 0x3237ee4f32c1e6301a37248c7fe622e95c00321988daa0525e93de858f20d950, 0x6baac42add42587c489d208781d00b9e4346f2a0cdcaf05c9d74f64deac369ea, 0x2c1e2098d1c399011d8ee464e727e7908f56a447df7d4e182874a8f285b3c08b, 0x5bdcb3728b9d2e4c1ebe5385a6b0fff634424412c7b84ef25802b5a76c2efb31, 0x4fced6eaa071b8b247ae39dde750bfa11ef08db208ace1e8827af641f236c8b4, 0x3adf79eaa3ed59d157ce35c820d62f86638f4cb47ba1a0a958bd923aeb00b1e9, 0x6a94b4dc6cc43a0f0e95cbab630c3bb0ce595a345950fd443093136a51938e95, 0x5c198ba197d2e60bde3f6073ae78e582adbb420d5233256db4a0201ffd48bbe0, 0x17d772f8f9e4ccae9eb2ad61d72bdd25307287d0670102f1a44279944c629b3d, 0x2856c4a82c7c902e6622ab54bc7e2c2fb7dac1be727e379975adf13218e27c9d, 0x2b54de40a54dea853c9ac2b2576dc70048936f9bcec6669a40a2673cb8db7f75, 0x20ced5f0a92d7fecb955155d3fa593927a0553ab20a933007aa6e7b68115334c, 0x50667e9d045dc505e8a340b2b7840526c23358fba73b3eac977bd930a1778232, 0x2bcbe0ca116bd445e339d1ccf02e671032db4200b6addd9e581a7c3645d31f61, 0x175a0f6cad2a2b207c228cd396618a5cd5fc3155b15a693d10bb7a04133402c2],
    M = [0x6b31903fbdc2f80a35310f73885456060d9a23572ee11ed17309b460611dfa3e, 0x2955d408e7b12ef3e9f82a968aae6bbd18d4bc748bf706b2ccc3e3f0104ecf5c, 0x433c89a59164598448448b384e447226665c28906f4ef4f72555a7c87e668b3e, 0x6e8f8dc0464638b4e6b14bf72e81ae80895914dd7aaa4b02870f1459850e5e15, 0x650c0aa7f25c66109524e9abe72315de4dfa67edf4dff12266c4e709747ea2c3, 0x3e7fb00ca42b6a880e643c401d37a43a70ae82d9b688348284dc013918824ca0, 0xdcb38bef1ba6c55138efd878c16419674700ec7bd34be4faebb7ef35aa2c3c0, 0x879cc8b9614d0a6fc6981684286322102ee4d6298337123ac80f31712c4475b, 0x2d6c9949ee49d3ef03c59ee4ad4d66a976504a4688821f35151e88614eb75cc6, 0x5654dc4928bc3e93b799d1bb46d1ad5983f1b41c206bb8c20105315634316b50, 0x1a50696bdae01a6804c0e0c51e73d75a674b75ec0e07b53d2f770582cc82ce4a, 0x7ef735b035f80b5f5b6f9840de56e70e5c566929724321b1d0b75854fda7a23, 0x4c831cb14065f38a37cdf43add12e4b305bc27cac573bbe4e62de0f243f7bb44, 0x5712e23f4419fad4a7765b9b26f185a8251c81728b3085d8bb787116fdbaef50, 0xa90c1a6d16806e7c9ff7454e15b90cf721fc1597905b3573d580eb7487a87ea, 0x3cf1f006ff4bebdaa9f1b15a3787addaa64f21a9d4acf67445ec94b014ad7c30, 0x4680310b47af0e960ecfe98a5badc0506a57274e36e8c2655176985b86cc9836, 0x72720116101afdde0c03a1c8b342dd17858300144adf28917676002a8b0f1ced, 0x1eb9e5a8f1d8fe71bc5841ef6ed44f64fa7dd2ce32919659a70a2a8b574de19d, 0x2b939fbbf4734e5ebd844945cd3b2800f4d13906c4d04b188233f3be8e718abf, 0x220afd14fd11fb0314e51c8ea3643eadd04f4fec09b4ddc0049681b27ac0d2bb, 0x2269a960ef257a9c67b8c20692411e7156a24093ce32d334a41ac6fa342cb34, 0x6ee4119864283da28a2a4bff0e3c93ce403ef9ccd3759f7ea2fbad7785305eb, 0x5a3305ffcec7cc7c575638145509450f0d169c1305091952c4ad544e61509d97, 0x62c0b66bd51fde178b3000f65b7cbe91528f8abcce95814aa848f59e9b5f0333, 0x594589a304db71721effa5e028584705a81e7409c0bac0a1babe435d6d9e20d0, 0x6fb40e5a88b3b866369ae7de2981bf8f55507ed7a5f44a64b71a26e5dc315780, 0x68017e642a1b0d2391e5f4a003c47dc87e467feae4010ddf952cf269cc842859, 0x5049a3d4be1adf7331a85a9ac072b0c07b3aceefff055bcd567ed76e85bb9bc4, 0x63d7bc29e97f5e7fd837d629b1564756eb0e67528f79fd017f7122a9d98f4fb7, 0x4289d7365e3a7c618094211103ec9449599e2407f0b548feeeed020599ac08e4, 0x4512f0895d0eb22a808a27b49addcfc3d1237dcd7e202f5b632211d63c7f5f52, 0x4215a8be5794190062db155edb6115d0791a331d5d06a2c5f0a6f1005e89049a, 0x5503c62cf747b541a6613bea60cf50d5d7774dd7ec42be8f2da282dfcab022ae, 0x5ec0f3fbc132efb211c25e4081b88e5939e63704541489d8e2f7ca5e6cf96ff9, 0x641ee0a0a8d89066f7e70b411dc9c1b8589d91bad57fc288ef8ba623f94ba4ac, 0x2a1d0064646bbef628a64bd08d5243daa8d332b94b07204a5ba05f2216f05661, 0x71057d3fab41290cca2a4a18f178071ef660e77e1aa32b514bed65b86c18c032, 0x1d3b8c0089a411cc50b03f78dba759139780a0a1256ef8a979adcc27dc1f3fd8, 0x1ca91a1b1749c82e7fe7764bbc1559043e208f3041e328cfcb7e3fa38fa69c04, 0x26fdb9e0a39cd00c4a3fe9f39a455a772d4dca4e1e6a53957e9c03e586d596c, 0x67b24930fcbac424de7b624b030392e6aa8968cf3289c3caf80cf22cbf83b655, 0x50b231d119be7ead6d58f51040bcabc740105d3f87e7b95834dc9430554aa554, 0x63146d52d5232b22f231edbcf91bb379e5dce3a0910caf6fc884d56203284e22, 0x2df45298522d8951cd21e7a2c8ab1f5ffe8cfee03fd552f365f78bd36e0e63bf, 0x144684ade857374cc5c7a0f99df3c232e39dbfbea2f2b911b4869cb283cf4f29, 0x2ffcac10fbd8fba8e5ff137b7546918d3bc04da431b848cf9d151fad695b9299, 0x67058a4bb4674c10b5be90942f49e225af5b8cfd29fa9ea115af799c7ae87121, 0x1eeaadd2693160190f7d14bd7480b379877dd06cc154e71d453436f22d16ab45]).* from "../poseidon"
}
