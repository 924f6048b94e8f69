// generated by tools/gen_poseidon.py
module bn128_t11 {
  import poseidon(Q = 21888242871839275222246405745257275088548364400416034343698204186575808495617, T = 11, RP = 66, IDX = 0,
    C = [0x752af3c6fdccaf3868276685f0a69b9749e1706a82917b64ec2ef847f804559, 0x69503d417e25f4568c7858ba8334301c0fa19c1b348bc7e18a4c1ace1d15418, 0x25c1b121f33f4cf7b308ec4630f27b603d22aa81ca3595e801c5fa7d9770a096, 0x23d6b55145bdb32827c1456af4d7be4c2d213e825c1d2f0c9ff99b2273751f6e, 0x1b357bce3ef3f2b76afc2b5804805adb14cf6bf37fe2357c79aa7d6b32acaeca, 0x28ec5ac0881c1e6426ba499409894a6f3c276fe5689f2c35c9027e80944877d9, 0x2c9862524ac8a07b47d211c9c504c8b0bd398d028acf690e4b8ed4005dd06eed, 0x1f6e6f0ac4aeb7a52343f30418078b40644cd43e290da0baee92891c4c065ac8, 0x3db3517e233f8a76d21b2fb23c85fa7cacc577769edea09aae39407b9af2fdd, 0xfc333dca4183dab479c5962eb05ee4b79a8ac6e0cce9e9b0a2142247bfd0877, 0x1eed281978a8395c04289b86197673b0f2b65e1a135264527e250a5cdf99aca4, 0x2568bdf6511034343fb5d5d021e052d3080954fee357dca36fa5d78f33b5be3f, 0x1dafade374e63251deca970591da4a285a63d11cfe64661fadd9a001dff82330, 0xaf25c781abf56fa4cd6833580e97c7a60eaa97f1dc32b622e895df3a6915b39, 0x13501451cb7d3e0cf3cb57741fbe8dd59757c9367fcc48fa11deb135427c5c1c, 0x197045fcdcf15bcdb247d8fbf6c85c80f2d065f923108559a1730d71c73e56ce, 0x1a390d7281375fac249b9855f8c67a275e8ff8a0a821d1b305c4cdb1313c8661, 0x17f0706f7e12fb022d15f94297c7b45947755e5e84c7b9957659be1de64b737c, 0xa8f5f03f19d49799b6fba650c06e4aef251ffc75243a8d7aee8924d563f7e49, 0x24c9e6c35f4f819f5bc1ef26576e16d2c7c7206a0598044acf0c18fc5042f0e2, 0x2405ca70d51550dc14abfee18e3823b9e979072330d547133a14b25e461fd5, 0x1eab4cd56f1474b270d502945621d93e44663caf8f1d31d86b156e107fef38cb, 0x66b9750f73f4561ede55939407e74b497d4deef598b873c4b4a1f32ae425d00, 0x1ee3dfa596f5d87030a6c9d27d61dd175b271179408235f13bb3f84ea28e7a42, 0x1ea94b9ac6fc1bde29d5893fdcb660ed61ff7b2c65b638a4046eab217c02aae3, 0x131388351f0796d4753ce564e754591cb1bae02a2dd54878281ac6e7a3c069cd, 0x1a45a017fdbe53619a29d8d31f27e408f64be10bf05ce16c90af3d1f13886a2d, 0x1b4a0d68e54312b9fa67550c5c0ff0d88fe57822dddf9d58d9d2215057aa94af, 0x1d45d369ec0399905bb029dd9fe0b97a5ced1d29c7b5a39da358ad226691dbb0, 0x26154c9c51df8059745bb2d97d9a9b8cc8f3d3d813dc4af414adce1d69920e8f, 0x2b748ad3da43c5cb9412cc64313c8d4711251a7080ec5b59206e7ac8c701730e, 0x17a5468fdb1e5fdacd9c9fd0a7f5fb756e05f2f2fb4104b2cb48d830fed13758, 0x2697a5e22542123f0923b86b1529a5405ef809de03ee4129b2baee5cb3bd94e6, 0x9b07ad43370fc4bf9ade610e1addd38d9d962e84d8ddb109efdba69916dd489, 0x69c194b5b9f2301bc48d6363c8e5afa4a75ca2f8a009e15ad4ca11a17c81a1e, 0x1a1974ad418cb372d555ec9af0f348b9729cdee681eb0e4479b90bb720f542c9, 0x18a9d8d34cf2c633138a9eb9eb29820c85b7098895826ecdf2e1bf040dcf0287, 0x2e0554839dd70a4b9998fd915327fae14685eca623d662585186d2f124ba8bb0, 0x1e6d0216c8b678bd9e890ccd72d23bc267948ad87fab25aea6257f8cb7012803, 0x920932a6c405b1ee871ae173949731e6169a24442d8f8c9ed79ccc7a24a495d, 0x142c42de6abfff58054f6a4bda8eba5f7f10cf39fbeafb8d39aef30e884fa3b8, 0x1418edd88e64d3ddad03f33ca0936172444bb0712d646a8bce67b2e451ee0d81, 0x5c5dcf2bd5e04ea65654fb473c4d4692e9958a5999abd7e5cdd706cb7e082b1, 0x114464311fdfa11eec166d202aeefc601e4d16959ec936a9e8f1b2f97fd35ddf, 0x21b713b0fdb238f3b053f6d596caf07223b2a9d1fcca758321a1d9175c327ef5, 0x15ef67cae5838a50bc671a5ea78e87b48bc98e3cd7bf76d5fa033093ddc97581, 0xbf88917cb7c570f68b39429d8fee0fcfe583306a6ca69338c349026fe66bfe9, 0x1881f0129a64b7f861085f6b3669dcef57e568d63497982780770b4bc3b437f9, 0x2055eb732a72d37cada83f04ef741785368d648d09cb50142575430a110e89ce, 0x19b848c33b3876bb168846d13897cde6b0b9e2b29954395b39946a4f5f26d003, 0x1e19797232964cd5f26ae8a2e04bd7b3dc1bda25b541f3d4a059b48fc952da6, 0x28b8dd78e8712e172486a4b278ac8e166b1996552c74bd2fa4bfbcba3913457, 0x1fb1cff73196d134c30359da15a530b1a5741aa0e05788a9d4fb2032aff0d586, 0x23bd3301f59bd655225f85c42a9466bcd7c64aa93637ee27aefecdf288326039, 0xe2adaeb2ac7d6944e287dc7c833015313d3f2beaba25ea4c1dc6f0e3fbc8e34, 0x2f5d08548ef73d65c2853178cbcbc8a70c48003c0d1386db7288260d29a52d0a, 0x2f55c0e96de74a61fc974df0da85b11ac544b5c8544ae59ad76cbc03889e79b4, 0x18885f739a9c3dfeed39ceb7c8eef77fd635ad52e3294d3e126a92a64c5a4543, 0x1267cace9cec3c1a96fbda5f20df309df88f9edf5684a05bfcacb11167983082, 0x2a45c0484448da31b253b632f39c3d4f6c6af8e3e399ddd393b820cdec66f902, 0x2260279c332583a36011973aa7626d4e81d6382967868a9643a76e53a2b25316, 0x28ec82446ae8bb21783f54cd4daf07e279bc0ead04d7a313769f662c8e74a0eb, 0x16e13570deffb3bebe118958b2d86470578cb112969bc6eef3a1321befdac9b0, 0x2288e83beb79459807cb77408c9bbdbdd077e620279986f4e2f0b3e5facaabd5, 0x2db5b06f1102b72ce49946084d75f2109ad970785a8329de8e225a410e243389, 0x2fce39a19ea115f3a917041fdb267c1b5103b5887e5d63c48eedfdc533699758, 0x2c65ef055b28fb41707c324a36a894c6ad9f862fd1f97da54459c5db0bda55af, 0x29e63a24c91235dc00a6770b9e572358c18a9063a34066f8b6f56683cff48ffe, 0x54211c56cf9cdee64b7daa7677fe9f235e2b5c99c5d8b55de20d9aa612c72c3, 0x108e8e83433f7cb1728723837ede94d073032ab66e2e0fb6db9787b39559d73b, 0xff9bfb41914e199a553e070eed9438fff033cd31476589149a9e60d5058114e, 0x6913bc2e37230d4b6f56b44697d6f80418d7c11a1d20d8484e95b067f935bf0, 0x300d3b773b9a41ef818fdd12202f499d5dbde395388a81c5ce3bc3cc8b488099, 0x29f9b289721fe3001937f6c487bb30e342b344c71ddd0f957d02d9295fabe594, 0x14de0dbb50a0aafffb3994762d1496cf51449350b5dfceb0650667f7db7f33fc, 0x45cf1d37629dee9289fcbe4823519deb857ef66cb39cc6630a3ac6157e9e0ed, 0x1e7de46fdd23c6aeb94addf6cb999856322d3ad6d5803cef88b6693ed13590a0, 0x2c033fdc57232e685abe9aeb18a5950e59f666598a0a9032afcf58aea772939b, 0x117eae65ffe6634241265348d98472074e89cabe3d8f9f55cbc74ddbd9843e4b, 0x2988e81a9b5dc22c8b3c7a9d01344422f2483364c189996bcab079912d25993d, 0xdbea591b66a2448fbfb886d10b899d656fddbea4e666c0f14465e09ccaddff5, 0x1edf424bb6ca08ac8c4cdfc98d6d3fd04000ec4c6a8628d5e2b3b1263234755d, 0x214306c0105f363d5259e2141e97b7da41b9d5115048d1ac8483fc688a7034b1, 0x242e00b6930be5835aa5027493d3b11e311877265a70210e01216328452fdc98, 0x29154d0128cc650989dabb8ca0b18dd5beb1ebac0f63fa47be96e3832012197a, 0x25d22d54d9c82d7cfb89c61aa62ca150506a2bfab5d300db784d25d260827d0b, 0x2f23f0ba299f5c0976c16eb3b88306892612873923ee88eaa2db8cc10108f5c6, 0xb743a8913bd8e7e709e68311a3585efb096708315a9812039f215899f4294c0, 0x264efa00929546cb4ec30a621c3c6f661325872864ffdf84d5adb61af8dbb3d0, 0x1c49d76663a358387762d208dc85400e7acf1b65fbb13edb346df1f2a10ace37, 0x2f40725d1eb518ae4562ee25ca08b3e56dacaa511bdf82d099fbeee5110b682d, 0x2651bbf39215d6d6632a652ace6ff5118555acff7d4c8be7ee3e206f44ee7c00, 0x2198f3b0a3fbd0bfab07578d40d7fa03e50761ba8f1f2b018613d65b091f3eaf, 0x18d4c4699f7d01fa00edadc43c8e1f10d92a4f7db96c2d9139bdd6fb11fea408, 0x59edbc553491ec6b94233d53b5328a5d24b6e49f457190bcfd062a5822957cc, 0x129a61614b4e9e421e6667daa9b85fe14beaa822b3954e551288564bd2b14552, 0x2e2bfe4d7b3234df6b62688bdcb2c8767597ea3f7b7792fb44377e71e1ec9f16, 0x1f8397cfd8eaeeba4798e9863737ec54572f6a355ee47cdb827a7f20dc389c9, 0x117db9cc9140e4670bc74e7fd3a6fe99b87e1781d2ae191d011c6d64e02dcf8b, 0x11e0cce35b68def7ded5522f434c486f287db0b6bae3cafb231dcf951598f89f, 0x25bf4ae30c44ddfc8700e2369aed7f568980c6d48e33b6c63737c82f942b9230, 0x1153f5c16d5608a17dcfa2fcc5ff92d0a41d0fd1380b58d2f77c058339886f6f, 0x41bed39c29afb7004cee993fc222605cddfe641fa3a096c8013f38b5cd85b7f, 0x47cd5c5b0c2a604ae99c842540fa37d44e6abec3657699a116b84fc42ad5d3d, 0x154ef25e671486db8e882181a331826dae7b9739f2eb6c8f748a30649aa4180e, 0x1b483e74f41c2658fafd081b9cb7709df288999454496a29a492eee79efb9622, 0x12db88342d014b56fdbf93dbf9d9c082196cb34e0ceddfeca0a40904e2b8cb2d, 0x944263fcad7635a7e8ede76f4fe3afb205cf835f42a95c0336de6c42ea5a990, 0x2e7ac6fa9dffaf83a9ebb6966ef5464e4429b98b78b8f14165c501546970b734, 0x4bca07a15b585cd27790768caa382e99d14cff8fa57e2fdaa115a472dd4ec12, 0xa230ab485e781468fdbfedf32413aa400c839ea855a50f1916b03c6761c034b, 0x1621dc3c8c3db86fa83059f4a3c41298aec8ed93c49c53bdd2587339b216ec74, 0x1b4e4bc4f028fded0daa5c1a094feca0d05094fafebd6619348e1dd9fce168ca, 0x1a739e55ca644e9ca0ff28062320977d9738b357287fe6d8727e10ff4452c799, 0x292800e8452a5666cd02b1756950f8048c367a2439adea3d942ee3c3185cfd92, 0x1fa371d9106b81aa664c11f50cd41d2481a91439a39c0fa1311ffc28c4484dd8, 0x2a786941b8ab631a455f1f0bdbbd3eb9a19cda5d76c463bff4ef12200bd6cdf1, 0x1521f303fd41509e122d6b7661d62c911fbaeeee821fa2e11e29e70c843fc859, 0x242af7a107cc7bd9c1c5b2537e5eeb794c677827c5663418bb9a2c9dcef29157, 0x1cc30d4813bbff4b91740cc8ba20bd06afa9d217ea012ce12d14e0271301e77d, 0x23bd2922b425af4d8bdb587b1cc08ccdff010ab030431664899a4a323b29735f, 0x150fab5986eef5bd1fefa92aab5002530d9f54cb7e65633cd5c310555e0b390c, 0x18b43cb064bbf3c83fc2f158ae785aabc730df7e5c6ae3bbcaef613bc0ae707a, 0x13bb42eb4e73787060889be175018b8f2e5a28a1181d777e2aac1c993acd6698, 0x1ab89b566dff36a95f8050e843494740ba34cd3b35d0b7c97bd2d705ef842abb, 0x2d5fd90e717d8af8d5b10f73844c6ca50d005940af09546de8e34ff991435fb6, 0xb836d0d581914218db0e93c8598b388972a479b35c933ccad984a0b6ce94bc9, 0x2ecdfb150fa2eecf4c34c76d56eb29a44a94003996fe3c7fb9d64d72d352e3a, 0x23578d7d5ec8ed31b2d7eb794564d389025fefd00652195dad122b400a5196b5, 0x1ccfb8b4d93e5e08c7c4c4f30635706fc9df759375fffa6835a4c1c27f222796, 0x1c0cb735346164ba93308881d536f5888873d4441e308375e8e6b738a1c0cfd3, 0xb73e5b78e0d23f77b0fdfd001738191c33029c06dbbf6f410774f242d0023e3, 0x44715c00e5fcb99c435189c1ec24b3ce9b8311421f5b1f38484ab7692c6c632, 0x1d3b3647b8ea345e92cc286f1bc18b6ea3b3a8551d0bf1a5b95214cf2310f700, 0x1044b915a339a2582a6e7fb6a66f2b97bd6182f9946ada1e5d3f764ce1ab0ce0, 0x1813db2251e3d904d0d30bb86be2d7c5803a92b87375dfd68f976f4622a51534, 0x2808152f5685bfe577c94fca9d70962e5a08e0f6fcd8d92182df7fb3b2b3924e, 0x2da940a1e8c89a6f983e3f988a4e79759b5c6987ba11f3f51d9a53d3fd1d4011, 0x20fb1d869cd192c87e34254e4b48f222f997b4526a3d3f9c9fedf51cd1670269, 0x1bd49eeeaac3927d1982829065a4db42698c0f5d5febcfd48ec3bc1059959f1a, 0x135112b374480642311b6b142704f21684dd024e0ad55ae02728ac322689e66d, 0x2c9e245c71832c690a7ca3db1cdaadcdd7cdd39570bedc14a87ace5f726ffeac, 0x1a319a5ab3b2a9e95eb0c11a5a12b79e856929186a1ee3eb2872ad86be73f564, 0x1a123c31f99d5ea55bc42ee322b7c070f4ccc1fc26bece9f4f3eb44b90513808, 0xb23ffdea065c8e75ea0d3bfd966dff136d6602afa94328439590ff3e200ef76, 0x1c81f8e014ab25b8ed79c5e1bdbf869fb1be1eaedd875a7539678046bd1a3314, 0x1bfc092f4701d4caeff6ed32605cc0f3543ef523858bf7de922363354ac3370, 0x16068fc89b3388fe5bd541a72eebf297689d1e6f978925deed56f2ada6d01fec, 0x3bd9dc121e7e98b549441bcf073b564d5a9d40e3020de4d1a71039ef2630336, 0x1d0bbb93d9c927a609eff76c3ca95ac6e94e1893c88ef2a544fb5f6295da72c2, 0x20e9e2dc88aea45883e13db206222e4c21d4e8eb954202f2b90c211cac96c9c8, 0xa69dec0cd8a399fff11902a34afe9a1331f51ad13a7ee5a71efd7eb8594dae5, 0x867c910850d2f230f7e5a03b3cf0dc03264d5b6f2661105b675c5ff41575c89, 0x145603f8fb5a0cf56bf71b9e6ffff83127c2d0bb368de23c69fc7a94c844c404, 0x2b8bb76dceafdd4a12be1fc9437b9d406ffe2144b7be46d9a56a410d17da75c4, 0x89bc5ce0fd41d90b1aa659de78346e05eac7d054f1fa5fa7db91c07fb3fa7d6, 0x27bad78b8cfde47a264cb63481b5a0388f1339cb21f2cc32905d82feb4e93f93, 0x7043ee703d2b1b6ab8641fcffaecd107bcbcc034abcfd46fe967d8417fd3720, 0x4f5ccdf4036bb78889335f68633fe091e0da370d2f07e6f854f67049e54c0cc, 0x15b1ffe12147ee71e3401b3335e78681c534bcc58fa9f80a8130509dc0820256, 0x109b0548eef07fbb9230e92b4cfb7441873a44edbd265fc152d65018783cd573, 0xf07c58aa725aeb731b6af087e7c5ccec5a3796ad74c872a7426fbeb7fece87d, 0x1d1342ddce6e4469f70a948ce109108d3b1e75b3733ce7c9a237a4c5e5274514, 0x635be9e7e8443d3b2886d154344d243daa9578c82a38e252885c4f3bb138b10, 0x1bd4922ac758c0f4c50bb3035b7ed4b5618ad0b714ab468b5eab988cfd8c2959, 0x2e1a0e6f84c93342b4d529f88184554976e21ec6180c580e4a58634a7b74759d, 0x2f1589be5a127698a4783ba48722e4c9a9088c7c9edd9aadf9152b9dd839f2b5, 0x273dbaf645f1185466bfc99b676c6187f8415b9fa2e1dd6fc6435f0a3ef35526, 0x1c11b76df042385ceb6d0fe269cfa150695919e047b4807bd6e9a3cd4b4e0a22, 0x16a0988d4234ecb090f09db6bde79af35394c9b3ccfc6a0bb444dfc6c7867359, 0x215d025730ada1788e2024cce27f2a53ce804a93a2fc60452a0cf948fb03a8b3, 0x2cdfdb0847de8099ed8a941822b15ef9e91fcf64325af2202de42eac92bbdf21, 0x946dbe9998dec541da39a9d8ea544a7e449e26a4f9aa87c28c7e2f118961342, 0xf958982b43f8fdc2c3785c4ac3e631d5c89fb94e0c724a7a65c1c3218b67e40, 0x185021b192274b1b61952ad219cab61acc3b36fd36188a1b8c12e56d998c5e84, 0x24d56b4d52b47f9bc6dcb7ad353eec927c0e7d4212a2e6de0eac44a210260b35, 0x1098d58fe7b53523eee81510b083fdadca004b549468cbd201b0a31c8b7e1d17, 0x24a99bc48481068390bc48330c113b7921ccff028ad504583976e7e30efc3c88, 0x12a7fd0a7a6ed9c0eaca3465ae557cf318705146f72f7b4e4ab24934dbb4c673, 0xd42adee447d6aea66365bf01e5b607c52848089a845d1fcffae9f47e0716b16, 0xd5d109de2579f4e5ca2763a37d1310930dddef69c2023b167ffea54b0c4aaa, 0x2efe7e744a2f0e450693507731d9c0492a077d194a02210022acc59e7ea469d4, 0x1dc37644bbecdc24f85b713fd19af55b6fcad311b77b5fe3030a96d5334bb833, 0x243115568da36482d004008176a75427fda366c9d07bcf56c7b0f4821c263764, 0x2ac9106e5d82d4e200b257b0b222cb30957327beae9834fc428046a0f5926e71, 0x16b852944570287d6e02c35a6300392635820ce4883fd0938260f85555c6c0b5, 0x29dfa400161b661f5264b4158460d4776f3e862b7b8235119430f7678a2a2a74, 0x25908a5cfb1c210f3afcd6e8d63173a6d79dce7535aedc57aaee994326c386b3, 0x1480f56b3a68ef41e5ea44dff254aadddbf19d50f0e990965fcc89bdc3bf3546, 0x2c1490f9335e14dbfaeac6675595f6b10807bcfa3e49a76efc9032f5f53af5b8, 0x1833f0ce5dc529d3576a7fb481d8f70fa6e2170d31c1031a255cd800fcb262b1, 0x26d36461a1c9f3a3653590e8273554f81fd51cc430f25bee2cccf55e2e762733, 0x29027f0fb381318f8eac14af24f76e1707dc6bed2710362256f16dbda69a90ae, 0xa4cde8f3d42ed48fb3daa7589036f4994176cdf07a2ecc3dafb54f9d45d9b03, 0x1fbec12feffe0889cc4a31fcae7d819cec482785e190dda2536e2c4011da8704, 0x1b26f238c7bb8636782bc0ee48a931a309274684014ce72714005d98b8d8c666, 0x8ff4df0c027e88807b8b6e55e6bf7e643fa60c66d74a33dc844ec1c34598ee9, 0x2207c1318e959e4a002ad5015d381b29915de22629a612a1b6da389ab86fbc24, 0x9fcb07e82193539b71d0a052d3977996a09f84216bcc1e46f11ac84d5d75ef5, 0x1969f5c20e80f10e71ff42fe5af7bec47ee7533153678dd2ef33f1e91fbf98cf, 0x7b65d6a874f5706282479ce323f36bf23bdfbc34769e11ac34ef2494f2bff85, 0x9e9ac4c51b61ceada2c861e276a1c0665f1b069142f144f80c46649a65bc425, 0x8b74eb90b0e5b3013347515fbcfe94d8feacfd5aefb9546e1e5adf59ab4acf7, 0x19351714ce3d2e3e93ec9015c02e0fa056f68ecf8d1c7faba519dea116e0217a, 0x3c4a15bc97488139ce1cb928f474505ad5bc7893a53b3cf1c9ba21d51b00410, 0xd8b7773df335b6a9cf298b08721d640290a0b17d5060f0222f263c7417d25cc, 0x1e14c212fb7679676af50c3711b1917d6599f620652b8bdfd244251667aed9ce, 0x2186cc6cdc5271291a9b111b98bde50c62a28043d90aef654171bb70e429fade, 0x768dbd4b9074b435467927d1187378c4b174685aeeca35788de665f2812a195, 0x63f5a888b7bcd3f8ae406ba40e11207be013618ad5f811cc317fc1e558c79da, 0x17807cdc2e72f05b3371fce98fdee5f3553eb4ce92e9398d702f938cf9ee741f, 0x25f3dd0be3bdf8e632afdcbd431be7ae6601549304475ca580d13741e2a7fd92, 0x2274a45e2d69064bce67e2eb664db45aef4f1d9dcccd157bdceef7aae145f6d5, 0x87ee7936deb77a97b8d7473f53436cf3fb1ce85df07ab68a028b46dea841701, 0xaaec0f75e53087db937a974edeb32eabeb633ece1180f1f8437abc9099df1be, 0x10cdf01e8c61263b446c3f7a10cc29fd01ed91fad9891f9c6fcb7b5ce438ba95, 0x176627a92072fa2bb64dd5dff9cc4a0d5bedcf3f22c91fe991cc6568a4fb54ce, 0xeab0e158e2f672c68a7a0a48328e21179a417eb0c65b1b617644e1c52c4b425, 0x2edf1ea1cd97d1a91fe7901e64c0f2d12f7965741da5a7c7fabee25eac3b47ee, 0x1fc07137863b1d337bb5dac18ad91237739680a69eed5da0bf35062f4d4cacc1, 0x37bdff68025bddcbed554ceac3df66a9eb298966d79308ae414d34227aaf862, 0x177f68957ba07da671b9dd919f2433dfe5f363b74a3c16169481c57c5b5c07a3, 0x6d47b9921e2502c2abb0138d3b1028b02b85f8f42362cf43671b60a69e9e60a, 0x131d58cb8a41a753e767e1e97cef60d0003e49c8cd1f0f5101c861b177715da5, 0x236ca76235d9e69472c9985f842e626f33b3fd4fd5f543810a0c5d2143ed4c9c, 0x2fe7f85a579916545907f2a02202b83696b64d1f61e813730cebc06d068537f2, 0x4952326bd26efed64637d4fc0f7a4bb528e3a341260125588e75aaa88f62d71, 0xc2dfb577b78dad18837bb70c8e2990f32325bb418f4f66263a2b63f3f98384, 0x122c682293b4892d51255991f9cfaf96e25140bd6b37337ea7dfad5e1242328a, 0x11ddc540d4a110e482a2455112ba67ffb3ca3ee54711498db1a372b9cc23d145, 0x2f6bd71f6b2f3af3d468820c80aaad72ee48a337f1fe3d7ce01bb89242106a1b, 0xd6a16d136ee77c35f216f1aa0ca9e09bdc259e715848ce047be056a4a09f787, 0x2e7c6013d1be62a78b4c0015465fb0b293a07d4605dca6422109096164b22b2c, 0xd6bbf18b7eb684adec412713570d3bfb36fd0f569fb36474f694b11b2948ba5, 0x12403cf8877ae510b7314b7c75ab5b0fb7fcde2e6ab48121288dc04d5b51e594, 0x151b3acf4ce3297d86e823a72067c71717382150c080ca3f8012bb0ba2fed47b, 0x2a1396702063c62e07c512b9d4d181d71d88b5681a7e47fd114cfb682faf4f98, 0x25cc49f3508fca1873a6f85b6550b6e1041d90ce535c638d2b523a61dd7869c6, 0x1fd18327a0482c394723b152c90544729cf4040bcced94e8a37e1c9e307683e1, 0xb27566ce02bd4cd2273fd531336c0ebfe65a5b0da123cb31bbc89533e518b3b, 0x1a9e153ce82bf2a6fa0d71d1889c24b5f111d262c82cf3450f9ca80608ec15ff, 0x7ca794d5ac4f40f0fec4d69e3a3cd1f472c7446e4e27fc1fa4cdcdc8605acc7, 0x2fdaf44c707d8289da9373536a6f61b66494fa9e9e782e0e410405efbaf504ad, 0x154d7c7e94ee06a436fdf59b501b763be8dc7f12aeec0752b79179267d643a74, 0x2c753b7779a3909fa0cb0695a9f33a673532bf5cf394f40bb8db5ec5fb7a64ee, 0x144ef40df7a262ff41795d09590112d63feae75c3533c0ab4bb9ae43d61201a8, 0x22c68d6cd4bb18163791274a28ba33b0d138e148d6d80b469d6e95197d164883, 0x27ca38cbe8b2ec8a927b6fa011e982323e56da932c24d73095177fe7f8aa979b, 0x36994c16973ea012441dbae792fb3d06b139addd7ccc0c0f353be33d8873ea0, 0x242d7d1bb8ed3658035034b55e28b43138c56c7fa9c0586978056aa77decfd3a, 0x194576547027c4224e9cf6de762a5169ca5c18ac5db90108bd76021bb9b0cef2, 0xe823aa11624ee571f23da021d4d7990563fc9898a7d0ce684e535fec79fcdd8, 0x82858a4db283919b56c0bc08b89386724b90868a4ba170bb1ccf5e112205c4c, 0x217822675afac3da4a9137e0b172532884aa670f142da689569db24f5b0d650, 0x274c614c2e392cee896b7850aa7b6fe952b7681959fbfd7913b43af0f5858bb6, 0x27d35572895d61ef77994592fc75251f440e5d120133252049385ee1be25aae3, 0x2b391acc9c8e452b35f31c91bc7de27e00d3e625413d27f6d60c39d00c74bf7a, 0x1b6320cc8acd98c92ca849a5b3ae52f2de368474dce727a0069e97cc0a546b5c, 0x2286075e6a96f1a55fba6f84b3ca4974e87016864aed62735ff0d428c0ac91f4, 0x18aada171822e8e1dc3da76917fed163a523bbf82123dc98f4c097e17e11deaa, 0xfc3fab45d405fa715ee3ac4a279c7003885e52023e6e36e5d71f05cf5f3035a, 0x1ce99509af24e048925eaad26d294cd555cd12e1d65881777ecda694a5e52a32, 0x2e26c17c921163b5bb3aad23ffadd47dd0dc4449b94c90ea3eb4e4fef138f727, 0x15116a7c92e6d9d46fb7fb51adee5a862aa2fa762c690991804aea7df5cfd3f5, 0x18a26a0800fcf288aa7e98f047317210e6656c87be903bf19a92e7c2a499c396, 0x22d7a40e7e4c1e76dbfbcce1601c22469b7fbfdd055a3f953cfcfeeb47a85c7b, 0xae771488eb4bf107cda3042dda3495899ec5fc437921508fd29d5bf21807afe, 0x17104e0440a812a33f825fe57da99dde13c1bd3e10de8ec967a5deee234cd701, 0x2680e4afc93fbbeb972d842f18fa3a35e1ce822ce02a629c3696e2cdb2894a5e, 0xd64fda93aba5c384eb39bfc144bea57b13d11b27d89323d2ae2748fd54f16d9, 0xaeacc635139009646db8941410c819e087abc601709b1f923f04ea67b5f58f3, 0xa8a2ed2b2158fe6443bc3b11754c14521db193335616c785a073f69cf15bf38, 0x7b133a201739ee204c81df78b20a13e00fd8c0a386942794c29187aab6273bc, 0x118fbc76b7f861e02e9ae5ba516960c91142ad7c4af11563e1adff97f863ceb5, 0x2754b4ff473681f3069edfabe21dc75f4123a0ccad5597d42779a8120f54f022, 0x190360a036668714837675f7e59fdf15fa57634f4db0c2c24a80d26951c1ddc2, 0x222922f3670b5f65cf34b2b2665b40a187f3c303c76bed52017073a0a18dbf53, 0x109e9fc20acfcecf3d47c04afdfba926f30e1172a5d506d1241818aee9cc7c55, 0x16213b42dc9dd4c9ef91500adf2ef8708851787374dceee4d45a6645a3a69b30, 0x24023ea68a2a2b008acbc5d4a15fcd0942b67ce952b0e1a03ad175066f755920, 0x247404c48faa06e6c72b1d050b905fa3ebd774596b4cfe6bb4d57ac38070859e, 0x1d868231e2df133dc0212c6248179cea17cb0f71c4cd827f5353806230d8916b, 0xc314749559c134886fc12ba1326e4ffdc33028d8eacd341f510f1dea2be37ae, 0xcc1c33b5320c911b47eee03c4d96ea2b25bcd26e3711d28cb152cbc5b87d2ce, 0x5f4c3605ea09d4b737b29fee87e1c2ba74d332bc19e6d3e8ba947f0eb3999ac, 0x5bd7ce441a3a72786312e63866bb986adbcb847b06476f98c6b7f8b8f042457, 0x13fc4c0e950281ef4e96eca60355152f7c0b335e0f36bc1cdde5f3952dedc132, 0x153c2f89d6681e7f94df511b9f193e2876884faee1bd3aec26bb93493a064f03, 0x16fcfd6ddd242be8cd4982678cbabaf4010be47978764ee4d14e952dc4a3a118, 0x155435d02b33ce45b9c3b6f3f1090930fc0a9fa99788927e504721ea0668cf7c, 0x669fa7d440e3a06db6fb80c876a36245bb693bb7960646421621fc2c391c5c1, 0x2b57df93a096e78d7f14eb117a9a5c5ef69d96cf45bc807e55d89bf980e8ac76, 0x1e8a7d19a676b3263f85a8482d95d0f3e76be0b6e5c9ac107a12fb9e655c8713, 0x2a6de0bded2bbe2b5866801f880e47e6bfa69005a0c185897c72efb56bd98a87, 0x99ed3a2ae3f0f6d0a67a1f79b55a135bd066cc32e5942a3fa2572de1348f840, 0x1e7d7ce084654213565d6ee21bf1f27b3d8027a2faa810517efbdfdca997fbf7, 0x2e703dfbdc86f5586edfa0221c81bb6899143210bbd8c66847764aa4f63c65b9, 0x505b0c3df9f92959a41fb36c72d85bb826d5672798fe7482572b5f41f37194d, 0x26d1fc920ab60d7fc4e826056f7d19c78275087ff9116e356fde302840ffd3ac, 0x2b3439c16b1af27bd7a4c8d9ddc6934e7b9f5e10aae7cce40ce6a937506d510a, 0x1e45d86bc184f0e086020deae34e53ab0ee7123b3a1190475c6e25e06f832154, 0x23f3e2f49ca1c95434b0342156172e65dbc6c9f8321cc75e9f15a66c3bcb09c0, 0x1d8c2e51db59d6e96ee69f68480d1f8e48c03bc876cd7915d888b5b0a11a21a3, 0x1e1dc3546a86032cdf8b8bf7f94a44730b662f8a56ad862ea1247ba2ab0f3d2b, 0x1147e82c00df45e182d416b8338ffae299178da5f92d8f9f9153c695e7859447, 0xbe94456b9a03c6cbfab9d8a34b411e91d20cb11f5624faeb3f78f38247e90b9, 0xc4bd9a3aaa923f649b9cd1cbd7879574b266ff2f7c0c063b5c44d6b48cca3f7, 0x6198c1fe412e25887115b54ff87eb4f1e2871d4cf377969ca151fed5d7b4dee, 0x1ee90aae68a6bda42c34a797d4d31f79679ceb41b587f619d620e1f5108b839d, 0x11aa5360b586c21447711b49721e9f4fddc6b6c98b57b84772d6fc6b8be017ca, 0x1a41a67390f922f10cdbaaa0ce5eaef61d66b6730825eb98a24d25987e87be58, 0x24a2997c832fba549618926afbcad00ce920788393df128f8a5416d26231615c, 0x67036caf8b57daa59ad4514773898e1b22f8e88d454bc1f8ef0c82cc93a2772, 0x2f18e853f9b7b7c4b1b4c3f0d1a2570b035fd2b4231a584139adb7a11221bc33, 0x1b3874144923943beb66ca8b798d0bb8f2be7f8dd9dedac6d91fc5b9e53186a1, 0xef5849ff458a11dc413a2d8abea9888c62241c3c285afe3a1b14cf71574c3fe, 0x196a36a231753ffd0c094642e27d80ba201a549af584ffa9a70a8026817ca668, 0x2e02fc222dd56fe6568a345add3c1d577898a361847e58b67576f12e3034a8c6, 0x2383bbeafd391d96aaf0ba7481467867c67ad39366ed8c43b42520c6292452c1, 0x20de2cd5ce733ea00a7f167f686ae67192637321cc9f0f4aa7214790676a3f75, 0x1f1bce33439afb8dbab1354b46a5b9ceb1980b83514095d65e513b79351a9907, 0x57b8de9d8ed593b5d214302ce88ee08f1812ef53cec6e05baec160c054d6747, 0x26777acbd88e932b2552f7813e62f368ab8b1d626b685502253a10c8050a4a55, 0x1589c939e2e3efeb8cb6c103476879101fec7a530ca18fe4bd2f096ff44af40, 0x2a36b79d87c963b1f47590ecc4cd69142346a54ae48bc3f573adf719b4e09719, 0xeed87708b5b00a42af3e6de58d4cddaf22278be0ee6344f2a775132fe107a0d, 0x2bf84fed63a11695b639727e18111ac2083d936ce64bd51a32dfa9f1b0e71325, 0x164a6098075941c6467319c2372463c3ec7adba6f6db9a58ad59a678f8f18a39, 0x205075ea3558a17b0c51ae3a107d898609e3cd5d82f8df8c3f74b1b73b08973e, 0x1f1e3c76fc69fd8acfa3a9bfd0af695c10c2bcdce6d8f4d1f7b76d50419b4376, 0x69982a9b25bd75814397b6d3c8a90781e1733be57f7573f2fe44dd35618c54, 0x2f17582941481b5489211befd4bc0dca43d4432ce11153a0fe735e55474a2393, 0x164531eab380bf81f6313f32f5c255a9badbd4edb7767f990c46b0fdbe9fb297, 0x31f46a8b4455ff121bc184a1c3551d4507a17c888931f3e99d356a9a06ef8ac, 0x11334dbaa6f7f4140d1493bd188c77628dcc782c5ff82f1ebf41ca094815741a, 0x218b1d38a6fd11d6566a52fe136e2c82de229698e5414b36be8997f060e8913, 0x2effca369cf34f74248e37ae3bc74299187e16a75f2ebe40467060500eb93c31, 0x7e54138f828c24b98b3511392861ae9c5876550ff0ee776663c3997a8f1a116, 0x297e1fb7da5497d3dbd0798a146d2fab9ac5b0e7906d8588238187b795001fb1, 0x149016a717fd85cc7df7f039ca6b1b8b06a5bdbda365a33bb0ae228900e53b31, 0xf9e7a22124bf50d94db9231d63685122f92db5268ad2148ba534dc853bfc54f, 0x1a3519a62fa692b3716d11b88e9d62aaa0e43bcf03c7ea81970b1d802a867b88, 0x2bb67c5d6c48cf458a293d69b2d1d44fa7c2c6088e7b7f9adece3f873dedfb95, 0x1fa713dde3903e41e68f09ac2f34c9b1237a445d5195c5e361c5bca31edfa972, 0x2019aa92adf7b5e795f0e539682e4b39b4e32bb6520c711102aebdd0c1516843, 0x2253b9233d047afa018c40c49fe9ff1f999432a9c7df06621b2504a46f120cda, 0x1cea08c49328f5f053c6b47cbbc9559224be1d81354911a18926a98e047bdae1, 0x123ad23966a42c729713094fc352e466e2646af9adaac20fd8e58f308d2736e1, 0x1ef59a7e266477a644527ebecf0bbbcf92ce5f80d2280daf826619b7ebdf79a5, 0x19ec1d74d7f3672f9bc66be9ac40f5be702b7bac80b4e33eceb592f86d5de3a1, 0x242646c43d7f28cf38c9acaf8c63b1b33ff07c778c2ae68c55d4893a927a3a45, 0xe2c8a604553db3b81980fe40d801cacccfbcbd79992430fcb50b04a42cbe9b3, 0x2e77da327c869b63fadf3824d718983f2cd1f7f8ae64c88f5e8a500a34056aee, 0x191ca3be9eacc6be4808bc1668d814499742a1167792e33d70d35b5fd0ac2736, 0x2a26e10b714c8c92c42331368736018850b48a0e5de7936b2cf25eee46631964, 0x5aa6b2e25b7ce4c170427081a01190f2364872d01e51e969b14d984930c10f0, 0x7acb3904e2ccd87ac5d9d7b6b7b7bbcde3850493371e1b10bcef4cf32ff2085, 0x5aa9ca5f20dfc104c85eb2bcd80dfe7bfe69d42d1ba4400bcf0d8ad53a18c09, 0x411a0b6eb09fffbe966876683e86ab965280186985f72fac6da310e80175dd9, 0x1e165682a562b6dd29cef850b2759ebf862caf71e348b42027553ab1e7f0cd1e, 0x2b65e92a1f91e38b2e7f192ebf0bc60cd224ec7c1c67b10d1e5f634fdf526b74, 0x2208ea7d1fc63767b1d3dd1e7fcfd4b13cbfaacb0f9f531b36b0bc74d364811f, 0x1ac718a287105fdd6dcbdd6e3a9f833791e7c345891b6ab4760e6e2bb62059b4, 0x98090f723dea7b927edc36a8eecf84630c92d0138f90dc555f6a48971f50e6b, 0x1dbe00faa3343aff72d37b302260143bfb5d4e5bfa4a0b3d0a62223ed66b4d6e, 0x642c365181ca2ec3e423d6ce74e145068a43f88ce053575a2ebcaf718860998, 0x245611d0d8047a24db3d78131bdedc67e345efbe3ea7f6c7a4fcbd3c642246eb, 0x91ffe3d519525ba080e1fab546709b2dc62a1793e3811ec5161c800b487f54e, 0x2a617ed588722d3acf4900b3dc5015724b7c8cef458cf9db494d786a26b69e4e, 0x1302868a9ab3b6a36cced0f80f53f1a13ca436e2d7c0f9ada90040affba0a8cc, 0x1d903daf4300755be0acaaf9ebb4414795bc3fb377e5903f89ee9b3efac052ab, 0xf671792ec6b8bbd0936abbc039d2a868f523a0050dc0122f5d9669b26347770, 0x1045a4241667a8cd38078067970b02dce9c35054a36fa51cd892d5d2133cf271, 0x28d738f79c07b35d2df772d562d54346dd7a41bd07096c36c2204320a6760b2b, 0x2d245b5c1c1a732f8283446ede7e846f35be9d49cb4f3f3bb4e5e1fcd1789d51, 0x25a499ca1907638351edbc836c1498ba7c8f2e14bf99f0bc2b8b86bb89b4eea1, 0x1be3f4d7663b949402307b82b828a15f9423f9be115ca9ac4584d4ac75296bdd, 0x1b67eb51facef5814a30cf5794a95d4ad1151469ad4d851d0c3366ed6b99320a, 0x6ad69201f948e4749ef9095707fdc6591022c78cb6fa047f825a41dd3e495c2, 0xa4b8288548d5fb3dde7cf4bbd1a0881e5e61d99b1d52d0f82e8371509654119, 0xeb4a9342e89d9cf0f482c41ce66e40ff7c7d8f9ad1de8d1d8d48a98b0054c93, 0x1a645a223471e2cf776be1bfdb7060185e5a58a6b651a12a8969ad5a0dfad97e, 0x302c4499d41e259ff761ddb305a366f3e7c2b01c465777bceae1a67e6b412c1, 0x2c17e0b7f901b93630c9da99baef3c5c2f5a644dcea6444357a121bc2aa4274c, 0xb0e36da8335e243dc7fd59cc2365974d0e0ffa247c54ef9617a80f76d4195cc, 0x129e733c1dda2ede8d396d85fd6bb8b6e61399f2311c09331c7ef2f9beab22bb, 0x2cdea7eb18f6146b67c437f37c13f856eed01d5e464e8870447c5c8b4befc4ff, 0x2ad4f0216033018e7d2a550c2e082432614f407fb60097d4505ccfcb31d67745, 0x2aac4f54256835bad96eec256641a10fc44d0d63fd5860fd475ce818276691f6, 0x17e25132c09ead8dfded691b9081b581f1f76c4a86f2fd9c9c29d2433f4d228b, 0x2ed95e493ac979a091bb6d28e81672ec5e1f1e39f163e5f4b9948de5b4be3296, 0x161ce63d596de69443d7f542fff36cd3c110c33cfbb445c9cf3b70d9081e4f0a, 0x193efc77ea76010547c5bcc600a11f1d5a80bdd7796a6b3d9a0daf66a0b8a4bb, 0x1449a38a938cee3b56f505f1ba2325b186e2ca22a8435f241cfa443c6000f7e1, 0x2060ecf9aa31db3120201827fcdf6b5ee7f1bb93d550187ca2dbbd4a4205a7d2, 0x48dbcdfe2fb6c50968e825a958357646779546c93340748ef2e05794b48ab1e, 0x302fbe9b13a3eed91a823b0b4d3e3621413408497e6c3c2fa49d9c8aa36f408, 0x3e81925a3fd5f25081532f2986507e0ed91276cbaf4ce0860817ac7bb838e9b, 0x1c549879138d434cf3143517dd9bf2a322224d76ba5b3e4de34b7ec490407440, 0x8120c7ec356e16945d94e55e835ee7e2e91e410315dcf3475f82d270d16d0ef, 0x130646400633005168c1e14ee27ab8d238d8ba7514c903aaa591dcde7bfc1863, 0x23e9b4dd3d1f30c37cfdfb3a83d45e524f54aba1c067ac1ef1ace082ab43479c, 0x285b38aaba20c38b0459f4a48843122b6473162956247894711ec767994fc3be, 0x2559fdf58d3c2200c83ed1fb4f1eed568c2248ca08e5794806d1841f3a08184c, 0xe33c73626ab1ed741e47ac52be4e9f7f7913b5d81d7da1aafe203a49ecb983b, 0x51d4123632497aa324257ae52a51e2fc1f9ba8901a925dc44c0dc6779ff5496, 0x1fbabed28208178778241052b236f0bc7ae9893d247ca9cd05672e9aff613148, 0x1c2f74139538bd253c3dd45a2ffb96173550a51cdbfe2a76827237fb85beec7d, 0x157767e2a7fdf25c184755b2f47369f2ce924e5adaee5a3738d4f942bb0bf956, 0xfdf1e7c86898044ddb397feb48e5ede9e3d24fba5420dba8d1ea6d10dbf47f7, 0x769e84ed17e6c1eac40b5e00ccd2d820428101b2c84b588ee40a443ac9e08b0, 0x2f2a0f50ded1e6ab34f60f8c56904a516dafc8153721b44f1b3561890c02e85c, 0xb1dc04fe75dcb36de0bfe15ca2d5ad5bf2538aed1333df56e1b2d861928e2c4, 0x17aed8d117c277ed0d1d888b35ec4bd3dc0b823b2af037d3623ea103a2078b24, 0x153140aa66586cee231a8f3fd8605976e6d32ddf431ff33ee05b9f429c0c9481, 0x2ae922e11ef4d41b7b84d52ab835f5bc8027bce9de25c1ce5b0bb88b6a17d1aa, 0xf818243cc3faecb7c73dfc21c2968be63b7e9390bac077747bbbe167a055b55, 0x1f62838a30bad6eed4ede2ab52866db5155137cce327a27f4b66e2204075000e, 0x2fd97957b9460d3414008cae825bb610f018c5b53309ffd26f39ecf1e7f795b5, 0x2692d11e64695e0d210374b482a47267cc00df2d1b90557227cd49fc37ec2b51, 0xfcaa78988a35202687ff0dda691b035b4e9540a5308c96e25823d8787a5a040, 0x1a742b2cce21c83d7943fe6b492a9b88faff3990e48866670f52a1db33d691cc, 0x73a59e2c9c1aeb2a2bb89b1fb9b64fc42a1bfeff1d85b6e7a163b8c3bfa8203, 0x4c604d77b356b485d215a9fdf7e5ec3f29648fc90a186c97e512140cfc5d966, 0x1d380aad6383bd9f5c4b9fb4b127e0755d1198ea3a969efe5e3bcf12d167882a, 0xcb07cbf2019493088e17d16ce9d14fc4204f670d6b8e2b1b501d1f1b3fd7951, 0x166eb6ad5855dfd3c45e27df9154853d4b0874112c4489ff7aa0050e41fbba1b, 0x372a3beb9db36031b7f0c72baf1e53e9c7220780b247aed82ee2079efadeedc, 0x5bd655204d55cc6b6390bc1650301957a676f7d3d6017c6496ad031fd5f7b34, 0x144179199dba135cc5f9e91b76880f342a4e74b8ee661c27d5b651f45656021b, 0xe6fe8c96ce98f3cc97c11993b5087b55f3de70bed632730f92299b3c32ba1ca, 0x7a2eb5886375517d399bfabe4c7ce5c03ede836c44ac2b51bb3e35aa9576d4e, 0x764ec896ba7a374f5fd5a1cbed8a2be62bae0d572639e17bffad24590c3b89f, 0x7ba9ec6781cb474fa4d622908f09a01767a0785c3a14ac5ba29328c4da5f4f2, 0xc325b498965e3770243012dafa0dd4fb036a4013f2f67f350f3fc9e74049160, 0x219dd3ca3c98d1613393838c73c88a6c6502ca23b3c85b5b8959a29691e34271, 0xeb2b45fd518f54e1b0d4825026fffdd76489f6260380af40ddab5ffc1c5b33e, 0x2305b8b5abffdc552cd96956ebfa456a36b35d200bd3e43ce165eb38711a67ea, 0x1a7cb11ea9463f6390abb707987615cebe594cf232fb5e8914407a43ae57b982, 0x1e67ce0524d1079208a94dc25483d9e6b7428d40c36305bbe0893e194a25b325, 0xffc539a853778970432d8631bc0fdb0cf6020b4724b49ef031190dc4bb1120, 0x29945c9ca4c39d45540c035c10678a3f2f51cadcbf19b332f75ce1f46b5978ad, 0x19cb401323dbd3fd8be1da954c0291d6712487c687dd9664a4b167dc01804452, 0x285fd86adb21908cc4441249fd005cb1add0b2abf706caff421927506619dc48, 0x2faabfd09b63a81c1cf4dbfc64323d8c127ae552d00339b1dc4c59b1cc7ab4ee, 0x2fc7539c406bce26fbe61517b9b8efd3617110c8cd4b2bb3b4a2b339e9857d4c, 0x1296cd089d4750e55c1c01d768b5e8f21d2bc1fad76b842940f293ec0bc2ac95, 0x21a0c3daaf57fdcf2e88ebd4d1d1a44eaa465a40cf60b07cc26549b577a1f228, 0x1acf97f4cacc97d888e4e3b5ad02dd9a8ee511475e21e982fa1ce50467511ab7, 0xb3556b9eef69e8447d1869d1286e0d15482112d23d0ebd7f8bbd61c435df612, 0xb82cf5e2db8b88b32b37978b1176f2a64da2bea71894005f4acb1ce6a684b70, 0x2c8ad1acc7636f65a12bf83ce68ac92abde9f451eca15051413f36bb565ae3e7, 0x2fdcc46499cfb1102f554080793658228c92ae49ed7d814700ad1e13eb5bef89, 0x2c8d7b9323fe30ec21eb7b8e0b88248fbdc70f047b5b9166e3dd8a60bd2a8d0c, 0xd1ebf973c9d26a64362620e65b0ca9f59c9e971fc97506371af9489de93e918, 0x1bdd929216a105b1351c6047b43c53d79866a0b653d0f4670233e9f59cd630db, 0x162aba246750dcd856c975a9a473a7c921b625699202934b0a1d29ffd038fe97, 0x2e681db0e74c3b6cc499a9afbe2229c8afde2932e4b15228679b540ff45e2eaa, 0x2fcc235134792fb4a81da0c1ffd8084cb8cd8099293c3a129504808d3ee39bd1, 0x1eb6661adbbb0a1774c6cf1637fa1e5e24399f6690a55416def3241ceece74a0, 0x174045c72f6848838b2a08a7a011756097b0f3ed254cffab2926ce159e9f5627, 0x2a0575f09f3282fa07e9b5cf5538993fc74c4ee8621c95fbb2ca2e5f2dc3a11, 0x282f62aeb167ef5963da6c6faa8671123225ad91b227b886b6b981aefdaca0c6, 0x1b9abbb81bcff5f1704632def6d989e50cfdbee1d249803238eac244351d7eb9, 0x18f8a4669faf9cff11dd19f3d73c37748fb4626d18339c077a06e5c5c810badc, 0x21af0de4ddfc449368db59be9e9241185c49c8496ee86d1175bdb7a431086a84, 0xb9a1ec9fd21cb95dc93c0ac1911135b3a68d372ce6da9d455d80a780b15f8b7, 0x1b413f709358008f44c3e60877d810a081d90844f367e3dd0a7bb9cc118dc502, 0x24b4efb5028575888feb5b8b59d40e3498fffcea1f350826359bffb7fd4f31d2, 0x2b11edef3505a9dad6000607ffcbdd02788c7b5802339be9cd74d2ba57620117, 0x202279706096cd42f906239c40c6713e8bd89efd9f63741299dff53745dee8de, 0x207ed9f7ff57bb17d278f833b61cf678f52c8e321cc6bce3af0804a7c159205e, 0x5041c088d4e637431b2a49baa3772a9b0443f3161fe46515ae8d3ac0b0e551d, 0x1b7c7bc15682259ad0881dccbce0a64a0259c59ea3c5e012f99534fc02374a, 0x1ec19711623ebc49ef4d857325aa9dd7efb5fa3cd7ad50f3f44ccca99128c84e, 0x6cb1be75179c19f889920ea93186dff923e2c214c50a145518837a2b01ca900, 0x2712a82039769317c21b225a4e0ba45df63cafb4821303664d5b331d22218d83, 0x1d7d0968738734d0710ae851377e340dbb101428d7200b731adf3b1c220f3b02, 0x180502bae2da039d85f537212bade3edb56fb3b6a5567fab1e4061b86fa3e66d, 0x1c3f1a329f00f6f7115a5fabbb73a67bdd74caceac0e5a4ccf25ae0373e9213a, 0xb888038bf1e8afa2e444b9f47cebf28f42854d1a91608e39dbcda872bde960c, 0x2a036e70e2987d85453ed7a3d9a68d574adf56eae1214dc774baa10658962c12, 0x3f11abd551e44d9b6a0f4440f47006e98cd9001459c9672e6f96a92e5023d3c, 0x1f0fa04bcd63b7a2bfdc870efbb36966f543e235c9dd5b371c5ea5c26aa7b9ce, 0x154e2bbd796692b8942dc37abd9534c486ba70bc77be21e74c4e15381e1cb4c, 0xa0525b3f96a7507890e7f65e7b593886d18cb1474f5db86501a4db1fba04b0a, 0x4a473932e524fc0e604d5ee9cf3ba9ef8d5b463a1379fcd7d6af14dbdeb54dc, 0x21150d11c7232f615628e7392f6a0c9348c70115a1a07b88736d04aeb85e0f8d, 0xc71b12a8e8a7d8fd2b4ea9b587f1c7227be1c4e9740db36cf7c7c5e8f313087, 0x2d94cdbe04f7f77c5af2d36c37bbb81729d951abfbd791fee0aa3a32321ac661, 0x14e45c5e2b09d6d631cc60c59fb5c24b0a57041aac64b4a82db0b63600f5581a, 0xabc5c5c8489780283c139c36dddfa39f88ee0601636ed3d6e4cc14bb3b1dff5, 0xb937ba15135dbef736446fb4923206c8403a42a800c26e6284a93bb233d5c39, 0x13869afcef8309bfd43752610031bd0d155f0f8d11bfe9a7154452e2bf084057, 0x6d42cef5ae2ec34e497c596139ef1d504a0cda240f1762335f02dcd58c38395, 0x1554308cc7124ccbdc04ffb1bb97fe1e8277b386f65ccf2c8b5614e343031a31, 0x1e4fbc4c3e4f57e90ad50bc6e7a10b468fcf9a0a87a290c4873897e49791391c, 0x8d2ca5bcf00e9769dfc868d1c86f288e40a31ca8396852f3977369af24d70b7, 0x1f5bbebe4a188434ac69933fb8df5050ba89070879978fa4b7787bfae7f83b56, 0x11a2dcf45d740445dd1e82ef88829813555acf76a219024ca7002501240a0e43, 0x2a8a12e68b1fcba10e0a6d1a86c14a10d26e3c7416f36d62ce6217cf967e1c67, 0x452848d3c0c00fe60d721380650c849ced2cf79d3044820812223e146647f35, 0x2a47a54f59ff22745597acf600754759113ca7dbaf11d9c08f507c46a9aac9be, 0x185bf57472562cca45f87ac1b1ae8122aec58cedb831281c51f3799f07e72b8d, 0xecef6489e709ad5c587636b3bdd9c7b6e85742175ff86ebdfc53ab588d6d8d6, 0x1608b3e2624ffc2c0091e47e90e5ac3c9962713c6a13683fd5531723cbb3889a, 0xd3f60746bca57e5c968372ec0e987510a647f2e7d34415ba37989dafa94c60a, 0x98ecf0484e127aa679523cad148ea227237a8d9ff9dd8d8f39fb58162c3bd61, 0x302f10e11c13f3767223bc501a5f9dd130fe517b627f0248f789fb7b30ac105d, 0x924717fe7babfe9541b3386fa40455a0177c69731baf22c0982cf76278899e2, 0x17382965ba7be709d54d70ca3e13feca23b22b9e6e5a918a9f008f47cdbfa885, 0x20d30010d977f9d912be79737775178aa841d972128aaa95eb7b27e160c2d2b1, 0x594bdb78b3b69993449609386a251fa14ac536c37ed01608489ac1c721c0706, 0x2ceec6c13c11bbd47664844320ccfdeee402e0af2ec8068796c7c3753330aff6, 0x279fada83f830dfd97b7288e670459dc078c76cf0637a8983c0617f27b4b3472, 0x29d593a3112c3bf57ec8ab687d8398fc276fcf1d462a6822892738533fb450e, 0x7175181f0554da6ffea4a860c03124b8d50c3ae5b59a167e5847ba33d19c050, 0x1280cb7bde9bac1c3d7f557f27a5acead6e4a77be5dc3e8221087e4a6ce23ead, 0x1a994958d44c343f59489056b8cd725491ff551c0f449697b546c8dcfcb90bfc, 0x1f004034e8810c1f1de507b7eed842983412ab8473e2b00fc75593eb4e3f5509, 0x405fcc7b759b8ca30e9273814efb350c1e52542d338f24c47fd99a94207800a, 0xb872545cb5ccc73d220bbbe01fe39940e7a8929b084602541230807dafb3c8b, 0x2819facca2cd6cc16a6aea3191f833c2d3729d477c73835ea553be5873ce2730, 0x22e725f6cecf165754ce1a52ffbaea774d8e485d66cba799723253b26b68c53f, 0x1d122e4654861c4b3f76c3bc49529a8c573c7b0d4d3e79c48e3a4bfbd62cd1c, 0x1ed4f564d147f3faa38336a0985022d537d34521b511c9360bdcd1b29f89a2f2, 0x2fad9912c4caea5d440517f0e5688695a4d16b0e77b3dc3fd87f869c83e5b9dc, 0x2b5a8561f0dc586d6e3bb83ed5ec3248ed0c09f9b30352471f2b0b80321deae1, 0x186f4d63b014de8c9ea7ab01a79abe5b9be3808e6ca8344132f60f5595a33d57, 0x1ae5e940fc5d1295d32457a840581c3b8bbda0115b66f7f7ca429824faee4d16, 0x14afe0880ad92f816292a452cd011384632d64ea1839979d3d67d405af32778c, 0x1ac869e754be8b071a3ee9c64af49096439b98f44b15a8c6f4f5ae8b75a3849d, 0x2dc29a1a317499b43a5a4ba1b36cac1508f795bcc4431bfb0ea7028ef2fd32a9, 0x2ee8d03afe43c2b88599f0a35b90926ae6510637e2733ac0f6946d908de51312, 0x266d80fb5c10b2655e141777097040473cd5a4deda9225b8525c94836dd51eb9, 0x2e4d66f6559483f76f1f55682d1edb56c8c3e14dafb6beb3a02390544e52c22d, 0x10123aed5142580dc67408e337d4c773789d93e479e4fb44bd73218cf3db7500, 0x19526f25b7ebe2c461395e66f866ffb80b2992d53883100f0dbfc67f132a5a91, 0x2e77d96a8736e6c38fb67b935a55832b511a4ad8d86621f9bb313222dd37d656, 0x9f2c6c969d48ec291576bbcd917fd622c2b98ec21bbfa2df5d57324ffbb4b18, 0xdd360058171b02326c9e4c4618c8e194999d6c4480081fa738878c3e1b11e57, 0x198a52b8282cad7eba3a3800b59a794a2c70949ed966c86ba29d9bcc37f29365, 0x17eb8c8e8003d6b93783e67bd14d12a9455684cdea4ec58d76a83a07b428dc47, 0x1fb9c160b09797e9d4eecc79c50e2658ec10d0f38ecefc1e3e8786b95fdf9626, 0x202c3b6495a8af89ddc6e3fbf4d66d73e6dd13f8aab893174c0cafd78c8a510, 0x114ba7f12c0e1a3b12c2b5291bd8141bd50dfc7000465084a701f47b15763083, 0x19ad3e86ad82a3765aa64ea022d1117e1c230c02a6ac90037895728f82b3347, 0x254ff8ec9eca4d3fb26c72cd63a7d4e989bb1b9eba0d8bfcf7713dabf7f64e01, 0xbe8c9b5aee37efa93ee79b5ffc00e8b772742c601bf8f230252925ad2c9a702, 0xc71775341a98ac909ba1f26ace40de8a56330931336abe715d2c1eb7d931ba2, 0xb833ec8305c2cb5002b59beb9e58216a27ab69bbc7188e4302131e20fee9dee, 0x174aee31c36b81a6212b9d446065af8800a60cca5eaa1b16fec85c2e2ff974e1, 0x17831dd406c7785a5364d3939277da9eb5b6dff1e56fa35ff18506c64b2a8b95, 0x121e1c1bdb7e4a3574bfd1c3a4cb3994ac4936ff54b07caa0a7ca53cc09dc445, 0xfb2ca5d37066fd7292478917498f8788bee33d3ed4904525a4145bce35fff1b, 0x1c131cf8a1d5440337fa13e595cf6d42c3016049ffac09957e69d0b4501e7ff4, 0x70ee4b2f7a90add1355f9cdbc3a557f84aacc648634b0ff48f83de4f76a5856, 0xac05c9b13d1f28281053b12af198776f3c9135d48f95d67c9314b2c48ee0dda, 0xc95a176bf9b37e0eef92426ccfadd296954c0bca794929225cfdc4278961574, 0x16635a13512870b72fa81e4648421a2210c0b29bfa1a3cc9f41470a91884445f, 0xcdc33eb19f21017be8a4cf0b37b6b12f801ea5c4cdb77a34cf176ad85bfa6ed, 0xe876459770109bd315fd932ea7c69c96cf314e3403d0f93fdb3afd64a150472, 0x1f26a00bfd677bfe57b879c71cbc54ca913a4791d4b04e30437670966d840037, 0x229a17692c8cf3377225426ce0cba5d61ed5f7dbb5a31dd603eadfa165bccf8d, 0x21ae714094395df65267acb6549d580219c449bf86c33eb4f793e0747a6445fa, 0x2afbdd235c79565be2f6e2cdb1d527bd569adffece0cb39fe08bc9d0ec2ea2d6, 0xa95c11af3ef7a0c585ebd2068bdfab2a1329821a17baf65a6a0746b38a4ac56, 0x2ed822401a485a621ee0b04f6f7b50adf796d225e3eaa587bcbf87c4ec0a19a9, 0x10f52269c0c47e3d8a4c878ba77b098d1a7e913fcd58f8a1bcd4afb520ae01b5, 0xbab4900dc219d1a737b11c61bde5da6af375d36401c121e8ffe8535dab67482, 0xf0f8530f0310cb2f6c999ee2dc694329a957946b2c761c8505ececcb2ff2237, 0x2015cb8f32acceab144d968136e87d67cc251752a9364b7759888eb1800a254a, 0x660194d882e378a167b870ce7095e5ad119f66ff97465dcc929cb02aeb602d6, 0x312bad9275ac67f2bb34610bfdf3c6989e89ef18bfeb3a5af5a3deadabde0e8, 0x5cbc68e5b05a1fc3e784569ef325011f839dad380e8e07742dc0af514804938, 0x23e6688ad84690b2fcc1d166fa6721105d36966ce9a384a0f659ab02a7bbe01d, 0x26201713078d367d68a33ce6ebb82ab55b6c116e534c85043fe458cf4d1f9120, 0x2ad17744e079b70e3175ef0cc86ebd7238cccd281148038498c47c733baef3f0, 0x227b2456b2df3801ed64047464250e81b3bc1d20f3fb79fef34d38faa39773, 0x1936c25ab78e54a947a7452dd65c04739f52df324cb481eb9a13067364a0fdd0, 0x2aa9d353b8afaebffabba8ed09220a8121ef8cd61ad2c20cca4fe8d5d65772da, 0x2c37de8445ceb0e6e16551a08251fd477a57c36d493708f8f1503346e224ec73, 0xb6016b413068fd8119603ac0ae0afdf94284916ab9582732584857312fc6228, 0x1c2da4c3fcb0215aef82e75f67b62db57f7e261792fb69195382b8ab565b2814, 0xd9019e067b8a2dd481299ac904a14cb516ac0ddaa177839581770a27616041e, 0xadd8f2e12999625d665e7ec804c259862b99766997a2754498f1c10c708f516, 0x1b04c94fba0160faf1a69ae28901f6e58f265137c4e6eaff003dc34cc06ae9a2, 0x19b58c38a368d1bfb49de8aab145368123817e15d06bf1d887ca21feee481b82, 0x268512a6191579be4c51cc8bb8b9dcacd4663f69e60f295ed750430f6f7fd7d1, 0x13d268b42c3385b68c54f2bcb9f72457d7ed9138fedfc85181a048972d34e1b4, 0x2cb0a99448e388e04f5de4c9cba52f97b9c4b7c7486df3236c8f92e16200941f, 0x1f0101328d89d8c934d72ca36c83de0f0c9eee06ca36c551d8fbeea255cd18ce, 0x14262fa1b33f7ae3d7666719900f64a1387103ed4b3e1d995fdced66760720bc, 0x1364121b3d6d64c4ccdb10584b4bc6b0f747bbb66f30d764d0e60a796d30a5e, 0x2ffda5ed3ea18847ecd8fbbb951e83628462e15c24637a6a5fc443cc6445032b, 0x1b6a9f9c7c09354bb8f206f9fe4a9ca8e95c6e41b2df2945d2efeded3199efc3, 0x2954182782b8a9c2aaae675e5d8c81a38dc9d2ea6462f5e86d081770bebfd2aa, 0xcad57ec1b88059bda6d41d957f17178beb8a932a29b6162675a6fee7dae1574, 0x29d6f606caf5aad785e9677fbaa1f8715b130e908aa7a5d6d88e08b3b8716492, 0x303a687f559ed6e770c9a84115ae726643fa16f4a9ec5c240f8981699f2f8c7b, 0x2318a5a800de467ac7406848d22ba7e2f2ade1fe67df255cd62a27cdad188086, 0x228ea9efaf3b18701d3aebf00c7432d13a6760e73767cba67dbfeac461d0a8a8, 0x2ed4c42bf04aeb7873c2fa14d564658533553d0cc8357cfd2c4dcf543b229be4, 0x1dafc53a1dee87dc061e12435c932ae1f4d4f6cce57d8e4f030eb7c0ed347b86, 0x181f880921711f6128e2dfab54440c2087ad7d0235beca496dc61aeae235db3a, 0x143fbacc8b948ff561d61cff210e8af82a0a500852d84ae29d8410e4d2dc7e1c, 0x6c4e0679e8b4d1b8249e09bae2238b91616a42094c69be83939570a4751e093, 0x14f7cda89bbbcd7cdd778ff878c8df66e2997ced3fed3091fa0b259c743347cd, 0x21b40bdb3db178afb97e6c8f509a3a54e4970c702a3c96e2a680a3bd9cd1159e, 0x2233afa3456f472cdfe3f610d0612f0d74ad9842d0ad08b826916d3a3b43bac, 0x195838cd762c2a0ac237c6bb111d274bf80900ff6b4956680bde41adfc90110d, 0x982b8802216422f46f29c0985967102048b43b53e3c8d1e558b2ce81627f0d2, 0x11cbc741c1bf48f7080f491c26d116766a8bc51d9cfb6cd08163e569e5f546d, 0x4c26770bfd30be7f086c9c707f29e38a22ab6541fdd5d9491d613d3fc36d64a, 0x21da2bd83ee80170d4cb123e322f86c4aa2f2ebf85cb97bb19e8d7340ccfa556, 0x1380aa59b03b58c68d377f62ee0b3bdc06c1b2df0c68d503f8b0a95c17239ba3, 0x21309cec6120b32041475ba9bacb7aa507578fc7d428bb010fc06f0ea36d0762, 0x8792ccf88cf6e450d137ed7b5496295f3f9cd6376454346fae4717f7980e554, 0xaef0f9086c9e942432200e8b59555695a4f531e319fd0d57f1881a55e3a037e, 0xe0b748d5856936b3fd8f2eb1eb4c2cd2b8b8be4d6318a82cad3e0bac505766f, 0x172fad32593c374ceef1a42abbd708565d3591e8032c517e4595f3064155ae8e, 0x26f5f9ce4d72145d3e72c42c974ffdfc89a48c511bd760b3d9db03b9b105c4b8, 0x10e053336934904ff6d7b672a3bd2ca58728e5149a9582a72c1c309efcf7a407, 0x1f01a98934ddde51f300d542d1fad8fff4117471cab015d4146b05f1deb04116, 0x87cd7a95fdf5fb9d7f0431a0466625cdb42dc6237fffe77f5ba14c6dfa1b393, 0x1f9ae8ef71dbcd0d48a124bd265d37cc0c1018ca0b45e7b43796b045f65a7a55, 0x1571a2b0a25158c0c5d297a397715b00bd1c5435d2686c31618d4128c538f0c8, 0x2322fdf2761e45f7cf265e4d6272519626de08bbf5e71af17069df29497a5838, 0x2ca8980f9fdcdb1b35022e02f6be62f19355ca4b9eac9b2fdcc37df2ed0264f9, 0x1a8881c334f39420d4672c5050f45d9281424eb61545782a6c17040dc7d38048, 0x1f319a0dc0f9b7429e3ee9bed57a96a0f2f67cb5fcd92b1c9cdc97a15f7761bf, 0x2419336f26dc5d498f279af95b4d7d1211137c608eed29b5c9510695e1a467c6, 0x1f514d22f672cbb16363befa56678778209bd257ca117b5141b29e06e4bd5798, 0x28034a6c901cec4c56675311def10fbcd8088f2f68f795d3b35519bb1fbf1a1d, 0x26c2b92118cd2704063241fb919806a0fef9814c87b071d5a11efc2cb1103cf2, 0x3d539ea2ddcb358763861791cc434d1eefe731ad3262eda857c56a06d9cf8df, 0x2206f49436409e8be8f542926d9e299121b43210e71dd7970fb4283337d241c7, 0xdf25598607771039fef577a6f6dbb610ceeaf204eaac7a09b96ad22de683467, 0x283a898de5a21465cca3213af584b7f56413a9e84b524431436d0b136695664e, 0x26ab264e89611039dc9cfd4b216df44709b54f2418df66545c30cb93814e446a, 0x2210d7f2ef43e229c5631d4e701ef89ffdf1aca64351791e0fe7eed428493c8e, 0x7da0affb47d64b7edc682dabe5c6db224743b5a385d04a2474d52ffe8abfd09, 0x2ad8280ae5cf82936069f72e49010f8d1643cdc299f12ac096fd44c501ff9af, 0x267b89f84f4845e3924565fcf1a54e8a3257fe8aeef515f86cc1c0056f46f6aa, 0x2d46f5c35e5a81cd902f418b4b93f25abf802d32d52da054a5edeee276148caa, 0x20ae8e71570f8ae5e655eb42a4f274650226af1fe160a96b177854d736f2bd2a, 0x20b9b29a5644790a5a31aa0a724fb578f3650590ddd164ce5af593f43c798f4, 0x1390c1d95991972b3b8efa1a367383ab97f4714396635e8791395937010ef0a2, 0x4973b4363f1f55da12d4eab985012d32bd80bc0adb90216aed9574da9e97c58, 0x25f7a653fc5aadc4af0fe534953bc88307a20e941d7c686bc53bbe324d184cd3, 0x124d7810821f47782fe6bf64a7c5eacf03d559776a25e2f69de28362be180bc9, 0x2f6f04909dc360d1add503953c11648f726eb0f612f703ac1e378603d33309a8, 0x13c2cf1b21b786238faa93bfbff5c0921899ef1ab29548828a375e4bc00a1b52, 0x84c200f10eff59bf43cf3cc3a506de500ed68e59bce5cddf1137ec7d61a4ea4, 0x53b5ad5902dfb5ca36d76b2f980906b14ebdc4721546a1f5f1e9741644f2913, 0x23bd4498b4c0c9f248822f15b5c88bc7a78d528d3bd3e3d3b27af6033afe1262, 0x2b5ff61b0e1fe18cd84e352c417ab5b836683f28df1c16e28c08bc4fd269a99e, 0x28f774b7936bc5095e77eb655005ab8767aad076c098b8fbba8521f18a2485b4, 0xc7f6d2ead683772565984ac819dc2c8326cc4d3b18f6339125621262128c845, 0x1e03532e35111565173f76b67ee9c713953757037b272b369b14bb5d22ab6433, 0x1cdae1682f2c10e440de32eb51726d9db76d07b6429675bfad7e778cc0bee076, 0x24de40666f59de97deeff6d34c873b7c2498f022b856c551fb4ba6fe033e4e1a, 0xfdd0166d15c0f4266ed7296dba4b639040ceaa6910683ee44d37b08679f4825, 0x318ee2254c3888ce4534d9090448b7a862afbdffbd4470dab55c9fa24f50a85, 0x7a8d19a1979c8fa3401bfe964ed5d3f3eef19d7e4d0ba007f3854b4904c5f37, 0x2846f15a121456f0f74b5072112a90ecc56a48d98a7a07f30eb553424a00b27a, 0x1295ad2de68e05b113031de854959d9858facf448ca101405407aafc1fe50496, 0x2745210ecc2533017a43305fcd13078d69443d0dda35be2ea50fc485ff8f1c88, 0xdc27f0b35fec0e0ff8cbe131c7ee42a228d889cb8254c4900cb56ea784919b2, 0x9780925cdb1429cc17c1e70b0b43755e2e70602994e975d34c3fc31cac19839, 0x2ef89ecae1006a20f739aa4da6987bb866d6993fa89e4a2fbccbb9ce28ed58ad, 0xf6feab3215156ac3f878ce67c5953dbc4e5ab3d131ee958275326ff94d29a54, 0x2049c1bcb035cb59a2350bcecc2a62f4fdb658108f059bc38c14098571a87d22, 0x9c5298f6696836b2a6544c9ca1c0f6448e0e6e4e0d4a8c3aa7e635aed20da45, 0x1d48ec8d786be28f71bd71994da04f787dc4b7792fe258255af742b348e4ea64, 0x766ba3f360f9cb8d27593cee1d890f57350c235096d9d05633992d477ef2567, 0x18893956ce600734714ccfebc44f67036f51c652822bc0c23797d73a93d47493, 0x3ac5e6a3c0373c58379bf38c87165d716aca05e14ce4729ec91496dc74a1de, 0x171f4b3d04a6eaf7db0b86db0ba5be7d4451b4ea0a1333bfaa31be8f50da12aa, 0x181955a3fed4ff19d90d947c2f157f050db34c847f59f5f63ac6c03b55383aa0, 0x15e503ae66cd37b3a58ac65549aa1de59228f5e5aadea7035169b9801e58a800, 0xfeeb8aec6c963774b27f86a55b4594d54b4b30955e358490ea169738f9e6169, 0xdd9531f7a34f1a001d4ebc74cb4ea4772b95519325d2989fc933035c68ad37d, 0x219fb59ac221747972bce66f78ca33c9bae38305e11ab3481aebdb9ddb4b2cb8, 0x1fd60dc0c476def3b624c219b3055373d73213dd925e940bf55ced88231ce09f, 0x1f8d07ef3e16cbeba789241956211cfa595452801f08c876c2525dc504c520b9, 0x515741548eba397d14e6269b32566615d09447155bab001ac6ee205698f16ec, 0x2530b37d2dd1b6166039f29fb1d78e90e9034cb6e9b653fe7428d768f8e9b2d5, 0x1602e869d50b280951eccb3ce71715628980d648390e89aff50e55a1bbcad4b5, 0x233887217af672bbacd873f1285a3612796b0cbf7890463ede54882fc774cc7e, 0x1849b3aa9e7053c8e95252858980abe8f1642ec66804753f02ff63f0ff21d648, 0x1a0049780885e0827447af9ba9eb9e658ffd62acbac998f6c1a80dde5aedc1a3, 0x1ca9cbfa808ca9c85559425af31c0aec3e5934b6ab51a2ea2549fbc2e7562913, 0x28a2a0f0622c2a8e4f16f2e0365b72b481312d8d5087e2e58ae89b34b8cc93a1, 0x21d1beed10bff96ca9f615bded99674a7331a52fb3566953e6ddf9eca280153e, 0x187114f2bbba9a993297bd740c2735ef01b85abbdb5b47c41ce6ecf2fc7edbe3, 0x11d0a386775c6e670a360a6fd957c403b434ba13f72cedc39d1408bfa73fc06c, 0xff4ef2f46abef24ca15d8b389e02cd3944d1296131b6d2dce954dd11d724f65, 0x20338e47b520d281448f3f8bf008aa743f74c5b63f98a630a00108464bb28925, 0x256fa0fef5853dc10aefa865c5653169397d545f07584eae65e1b3e50fb6a616, 0x144ba3619d5fc9d84f0632df296e8dea5017329573661b69880c38ca45ae3189, 0x298498c8df31dd315380b3651fe9c7ed5aaf4a4950a66134bc8b6029472a3564, 0x18caf9e264a32dbca23da51a3514fba92fb62f78ecc2d844557355ec8a43b0c1, 0x194c812828f1cdbf0c4f0b0486afb4c5d96ccc218b3b90d04bc5f1c8665ff641, 0x23f93e1c44119ba856a10380c2333191b3105f502a61eabdd8b1abc803c04ae2, 0x25d2cc988e47ce70fa99cf18105000d3046717d839af547edc3de931969ac006, 0x1d1083600023cccdc7daeebeb19783aacc6e94226d00c7ca44dafd755614a80e, 0x1943a9ef811abfe657fff92504f2a8914f09dfdd5b979911047bee4b698004cf, 0x1f96db1392a3ae5cbfee4c1863f0bddfd95a652993c8f17ce18869c261bc6c7, 0x12d4814ebb315331d4fba9dfc2ef909cd77b1e7126c9e6258a3c9821d663d778, 0x27a2ad69b9eb5697b85b431eba85dbb19843f3c7518121aa49515a65ee552e30, 0x66f7f2981ecc4c4415da62eabd3230424abfed3567121f656e8191a78c5ddf0, 0x16e298f60b265f06f8ec9227e54e8bbcf2b4823921deb44f063c92430fc40a12, 0x1c10ab39cb04ce02ba72d996049ad688961f60f8d9821d1716c5a6a2fe0a9734, 0x2cd7c8a78dd99aedc18c8d47452b4d5b2e9c5b2128eb373b820ca8beec970a73, 0x23391ac9f29c1a99ed6fbd9bbfbe72b488569bf9a207addbd4e30a3a8b97311f, 0x3041c5599a51eda33a6398eb31232519797b00726702a98a319c7ccba9fed2f2, 0x4e64908d79f35ed77fa8196f07a948c848512b534d9bf4f30ef093c797403ae, 0x19251e907d7a903bfa7bed87eb04bd921dc19062e4ec3abc9e82b7fa4e25be6f, 0x1b39681c2c125cae8d38cc5ef6fac252f4f82374fd5b9059614ecc134f2b29d5, 0x217a54dd68dcd53e336cea49d89925fd128fee65bdca131659d324ae636696b0, 0x2c054bf6f91776020de3fb9705ba29e0df17d7e1afe61e11eda8caf78762af3c, 0x1f88611d6c0287ce53543d87ed8182ba475f6e223989eda35d1ab746275fa4e9, 0x204d5a9829d570e203bde491b862a96979d71e480ebffbb13c4cb3af566371cf, 0xeac95c688afaa773ace4856252788170baba69a6181071d1d1a4e0dd320b4b5, 0x2245a0967d777ac5160082563d5815b44ed0ff9e4305c65c503e0ffebae5dd2f, 0x1b732905466ad921ab2430cbdf772a816d1ced4dea6818dc3cedfc67ffe5ffbe, 0x8caf1a4cd826d19e1c27f970cad05b2d49931bae369b82c30011041879f2894, 0x27d8134423cd987b249f4bedc7773fb7b7314e8c83d9727f3a21d0f162c561cd, 0x9a2ea37b3d739dcd70862ce62a8837dd267c22a29eb050ef246edd84f48f9fa, 0x1adcfb436b238f7461757a9665d2dccfea1c7352c59e5aeaa8ed24b8530bdfb6, 0x2a2354db535feba0800ad6659761f29aab31c142716e16779583c17d3cbcd700, 0x1031b876fc704c3296bb38110b87476f88f5721a1132ba71ba0dc4168719a6d, 0xb85e9fb664cc3b4ee539936f885885ae543c606fda007aed20257c8e4ee3597, 0x18067bd085c60da630ab24cdf419afda09778912d5c76ebfd9df7ecff6207186, 0x3771dbe5c3340fd289917d6fac9a154b6d55d63557af13d9bea711aafc5e1db, 0x3a120381b15967cde1a33939fca7830caa1af1fbad6d6cbd4623592101f1f77, 0x40324fbad7390bd98c3553232cea681d4b18be857931218fbbd1d394d67f781, 0x294a9378accf723c26266df89bff1a2bdb710f198de168890dfd73acf786cd98, 0x203d8640466332ce0c493396731a23b85f77cdd95880c457dd9cd46e99bf0f25, 0xd339481cf52ab1f652ec8967a89776e92b6aa12056794c9dc856fc27ec91ef8, 0x158be4217747076a28aa6f617c7ecc6045c8ce5c484aada197994b618b37cba0, 0x2daa17b35ac2ea21eda36bb06db40a7fa81fe60cda556d73121dbf17c8a05ebd, 0x1a2f7903bd643c61cc5eb68455202f6613c9c03bc3c59a8cd7f8d10b0c779210, 0x1ca7835f4f1c5f35aa1e0054afb114769a82474b2f9f771227f022fa762ba56a, 0x43ab3c95b64cefa7f97e1e8abf9db25d64c2213bf44b01b0005fee067804beb, 0xeed1694086cdd6dd84002c69365120cc2318283226eb7dbd9c1154e5be774a2, 0x31b726aa5dda456ffac29cd38b64926be57a1b6c1fc593a50e7e9cd384f7ef3, 0x2652cfbf90110f7727750d68eeab7a49385886953f75832be375c37ea9ad6750, 0x24a58d087af381a6f27b0655de795b6a7be734f05a4f4edef0572279a28a3bd8, 0x1b04d3e92a338f6beeb8091382d93141b3bb3d033294413a398da24464272a42, 0x290b9ee02a3a29eda94ce08a6752191c3c296cc2c044edbbe091172360b24c1f, 0x2a012d2f441545c914d25d0cd28fa8104cda2a080845c79cc7d0f39146b0b358, 0x1d4e5bc180cedcb8ef0a59d25498a542e324cf0f7128f707c433eac1eded47f, 0x54659f012ec8b757b1d2a175a9fa643e963238c342264ae9fc39a69d75462a8, 0x19fc0305e1e5b2afcb86a742152ba895ab024ac59c7b57e535224ffb807dc720, 0x21d1fd0c2affce674ab016661a216f0615b5bb1f3fc3985e9d74dd71ea86ad66, 0x26956d93f01776d23bc7f1e3464992581adddb48176bcbb03efa853ab09c3b17, 0x2403120e5a687895bcbe57b5b11fba0d963eb0c863d8aab74112f512ed8ad9e2, 0x26684fa9b9548b08ac79e7a14bc28f8d47650312f0629a40bbccdb590a298cf3, 0x216969c221bdc3daa1c2adb9be456ca19fcb948de9725fc597ac626968715c18, 0x6d4e54362d5dc7cd489ef466713c1b8a703876062ed0366a475ae9ac0776c0d, 0x10c21ebf642d38aaf3de15ac4a0de3b71ab9788b5904a78326ef099a1eb953fa, 0xa4b8e91b02da94aa621acff16bbdd44f079d29b2034a9e1dd8be270e7e3a803, 0x2b1a5b52b5f1c739f8e167a8561b7c5a567fd449b61e4aaa2965f3177badf7bf, 0x1e858a1edb097f168f10b9130e51d5a4f3b55da7fad6896298f14bb7af4e6356, 0x28362c3ff6abe4fb017450c7dd344bd4e08100afe5a09cb01877265967aafcd3, 0x204e017d42e6b32cff2091368e344201440854761a0cd463766041d7e38dcd44, 0x182307aa6e06bf1b20cbe534913a0b561e310316e23540f35f1bc9ee437e92aa, 0x1ee400aed2b9f1ed67a8116438ccb7bdb8d179868c1fd6a6dd9497744ef9ba9d, 0x288590acd331f4499efc2e7e8aa2656e64cbf0a68c7d928c2220db643db9d410, 0x8634f649b3d25022a2125f5f300d2cce2cbe122df4f1c51296e6b65fff1795, 0x3c462cfcb45169d9cead1d0715c8cecffec77ea449a20882aeafa4aee274e6a, 0x18fd54d4986a2e7804cbcb77e6812c06e7b8e28ca51ae323e56d9094782a30cd, 0x1b9efe04a809a43c624c726e9294bdcd3bd1e97cbded742e2173d3fe9e429fe, 0x109ca591b9350c71a7f2886c6e55628b38206223a57c07b2a4490771c921e2ea, 0xf98134e9077529768e4ec3dce4b62ca6baf8199d78c7e35f451912a80fb1bfa, 0x2205834ab1c8a66de1bc766adee18eaf689a52beae8659ad4d0b437bec229526, 0x292a6caba071b9fd8fb5f0e46dde4d711bb4a118ad0c67e77a7637544bc6c21d, 0xf218ac63a89d96ea37d62ea0387c145df2f14957bcf5c7b5b2cb9317a871740, 0x21393e5f2e1121136a25f071465cb85b02b2fe124a8e4ea83181891a710b0a50, 0x6e22d6946484dad3f4ad0da41be11da2aa5451fc7f4cf6cc5898278a6747bb9, 0x1ec8117c5590074a29a019140efd1c627b715fc464f1d7ac9d47f0979a4c59c7, 0xe6f5d2ef82945dfb392e447138bc94c32bddb72483055a0563444a0e4f6dd70, 0x169abfcb3ee96d7e02f9711eadc0a9e24a47a2f9fb1121cf8c6dacd91a5b32ca, 0x2d1dcd8258d2c559535ec62861788dea60dd42d7fee0cccd20a6ae4214d21990, 0x1f8a46cec465bba964496d25caf9a351be7d09a628ff97eac4fceed7bfed5c45, 0xddae5753015e7c1f3b07dae4be7747398c9b98667aa13f80f768a2204620b28, 0x1d961204697279203f4721dd0858244f2cc64c5cbf1a4bf1077a042ebf11af81, 0x2611bbf19addb97f4b761abca43999a4b98d758bc74ed3719bf65b172635abbd, 0x2c93c5c5b057f52c0b3d54338659f05d1566d028c1816bfbfcf9003593b98190, 0x2a926fd3e066a9fb75f76fd02aa9996999a090450d11ee1a87a1e0e65cd287f8, 0x211dcee0fee3f8571fd96f2b5c55de1139807fa69fbe79216563f6c5709f72e4, 0x2b7ddc28b2bc2d2718e9d6b4c790d55834b77906de2d4ce8b301ac35d33bd761, 0x17ba5159321a180ddefe96bc9d0f9ab7f44bf2e55174b6a09029b9e3fd83e0dc, 0x25e12b63262139695e50a1e96b6480353a6dd6a1bb980c20f91fd59e518a030e, 0x95eca3482e28057b54118da6c45a3f0f5ae53d67becc4fb0ca2e96e241016b0, 0x1112aeb9622bd2e00306dfa76088ba87e8d9cfeb83d756b40acb4454e77e3ab4, 0x1b69507de83452ce3977a83e01648114afc0f41974a6ba962f77da7ee03b2353, 0x18c36a227f30ba8be835022cda0891d51b2049dcecb5261c0244336342681283, 0x32dff6502adbf3eae1edb0aa2a142c2387216dd501acaa18a3565112c3cef30, 0x67e9b2df10e463ff4e65fa21d18b8e7b5c55d217941207850d984c264ea64b9, 0x186a8c1ddfd9fb6731243a6c190d74c258076254fc4d851bb67c15c855da68c9, 0x25f12e0904af730ec68920122e8d7e83e6db7e0d3818d82ab3f5179652acf1a4, 0x292a053be9013f374156454727329ca30c50781b7f68371eb082974914cc2f8a, 0x12867bb541ea17c532cde157ebe2ff6f0a3d3e83b956e619951cc99af22e3d7b, 0x9dd2a75726a265e98ab42ca0d013e7ba2e15b26100516e0eab737fb70049b56, 0x137cfd0054dbae6b635b4e4f9e6175226e5c95c45e5b2541334f94dfd93b220f, 0xd14636d7b7afd1186f0b9d5c8f8ef551beac7bb2d36b25436f04bf7dcb60de7, 0x1dbc81002d8a5cae1fd910532f08a4323c35781c2b901bd722babe0a5f6dc613, 0x241057b0d9977eaa50e04ba893702ba182cdb3388cc632907f4c2081834d8da5, 0x7ca75c9d51c65bfc2ca99c9c773bca2bad7b498370b5d50e275a88cb6b06339, 0x15fab6f34ae8d22bdedd760610dd463d881cef8ce82fe4a0c0f860502f6d3cc5, 0xcf846e67ab815b7bfb255008733f8b45d83938e6eb0dbd19e6d537eaa581e00],
    M = [0x26dba58ade8cda188f49e52fce7167b8f219dbd924d7786b0f98fb799fefa2e, 0x11a131a3778c3774233bc54096419d463d3abbae18322a7e77a511881665f93, 0x2a18ab4dc4777e13cb8358c1c423153570d1cb909544243abdacd4547c8ec3aa, 0x16ebd782cbcf6d63c38b87b27db2a4a5af5847a9a60889c4cf6aa318d6866b1e, 0x2b7ed47fac275d34f842f09b01ef9421014de040c26a591595b227ba7bc6fb2, 0xc5e49e319fb9535073f07f9e055accaf3e3f24a35dcb46cab67dfc648efaf30, 0x161e4ae5b2d24cd638ba5c32bc2317bf90d404e37e003f1055d9a96e406d30d, 0x223c7fc6d24fc53d1b428edb8f1c52d20ceec592187d2c7a6b0b147b6292b81e, 0x1ae060e39b338d09845e2e9ebeb70bfb74cd4af926217f5732be2b6cb7fe72a6, 0x46191ab41e93929ea51f190fd4e773ac8d5083328d4b2f04828dca3e69098c3, 0x14ba1b5383e3733c63d00c32c2bbffd8e54507ed33bf7544c86388191eca3e40, 0x9813c803ff84a3694eedaf4b1c2172615275dc18ca654c799a70440946ccf0, 0x1495af03dc9180c886f0e1bdaf9d18e32e6b0d1b80370e7cbe5745dafc433523, 0xd95e8cf8a66b56c32e7d11e0107e41e1297122d1acc41332f1b49895a3c97fc, 0xb05f16108c4616a973b01d82e50d4fc9dcdcce67d2d21f852816bd234e9872b, 0x230b62315b30bc49d73dff8a9de79c620e03c747b14c432f170715e588d605aa, 0x15d217a31784741048f326e155af96e90b5aae734f06779e698864039c92e123, 0xaf9afbecae1761cc17d44b51ca66d1dbdeaf341e85f1082958f9cb72f7b55d4, 0x1da4f4e3c6790ae1b89c4118861d8ca2a50cc82a4e7f1ed3c5ba8cb944ba4689, 0x2860aa52dc2f967c0c1a0b942ac81e02189d031430c11a919a5aa895bcfb6151, 0x16ff33d67c85121bcee7d81cff1618927f1c92b4d1d21c2a07b6ae18b2b7b9b7, 0x1ba0e835f47626b0d82426900c49170a8be29c39d90337aa5fc10764e2321a1b, 0x202973f7fba5bd21ed58bfe7156d7b29010d41090f63f1bb290c1d5da1ad60, 0x119344c53707f00243983c6d024fd49a0f8af80e5871933e58ff87c3a1f48b93, 0x7c22f96f2f55653d04edc63150567a7a04609b0b79eecfacb1485dceb7bc873, 0x2f394cfd3e442503c3a22512aa4b76b95b743c7076ca4115a9fbbb7c6b07ee5d, 0x206351750037bdc90d4f3e7918619fc690c2b5857f8bfbd86d7c001e4cf2ca18, 0x1accea09c2bfd17f4061725c712fd1976a07e773e54d906da166215201a58136, 0x5e52c0ff8c04a8e5e3c7eafa1d0902fe63e35898934b00f4333b38fe614f913, 0x2e708baaf894bc5835e5fea81227fa8cfaef99086d12b0a3a7f3f85bbca61d28, 0xac23f00ff015baab1c8be9a90943c3c72d17818be7ad427c45eb3ff1828727d, 0x2134798f4ca7fb9928012c937f37de87432b8665aeedf373e7ffa6fe0c13d00, 0x219f5e28a5fa52689d2b7be432624280c940c9bf9883c1fb0fe929f78873c1b, 0x12305eadf64dac24a7913a62d95aefd45f48355576c671e56fde9cc7c8344ffd, 0xa92bd6a919d1605615786f2efe80743ca57c10ec80cfb926722b5bed408b79, 0xf716c54de41920c401a62df8f9186e19b9523e98637a5b113d61ccc30ba0213, 0xa157e244f939125d57f9c8e66f7d88ec0fb3c05b90f526bac0871bca84677f5, 0x2218be861d524eaf03b9420b1368e9c5aa7cefee72d0e6ef80732ee9d7e6e2c0, 0x2f9bd19d0c8c3887a7fc0173f863f075e66b183ad89f13704930416e1d5cb7ec, 0x14eb401c1084a9ddcd5d0092e5d1a299aa0f55c351545c781703c01ce87d6b29, 0x13fe23be24261ba5b92d363989f58e17fceed4a858d1c61fc2cf2b71dbdb6936, 0x32fa2f166622f057f61a9405c9256223cab2ba82c9495607921755ab018f690, 0x2aeddbfa245756ad1e1658629f747b8da7593b195cc950324f95edc9eda42aaf, 0x123a6055681023b16570c70fcdf3ae8e387a973690b9e6761be22f9941d7ef76, 0x25c783ad66d6a1fc6c84770bd637f6207097dffb0378d7e0395f8c0b86b505f9, 0x1c7d3a92caa435cdd974520bb6fb6cac81634cc9bf4e534df77736e06d768c3c, 0x2cd68fc31b67dc45fb6b16f42b5eb89dba2ae7e9aa50c5f1915275a81887190a, 0x1d4567c12db648d4a9c41324c0329325b76a07730fad72ef9e490a748674985c, 0x69ee4eb20b4860d4af91afe1781338f53aa354562ecd873e0e625af70746f26, 0x6cad0c2bd438c4dba2ed64bbf75066e731484c36d1f6738b6e98601e9fb498d, 0x1e0e166d734aa614c6b53db4f691179841a33f8105430a3ee70abca83ba6ec6e, 0x1c879c9428e19607d647f5ef1415e76f7c59fd01e52afb80486081851f9a5284, 0x215c0cd4e3f1bdb482b93e571879d7931be90023d7a220e8f93b21c8add41ffa, 0x1f41fc67ca1322b37b7aa01b631fd19105281f6c6a4d37fbf68fc1b5f62802c6, 0x1dce36062af7e4b0098f5590622ced7af9f28e88d476cde1391eb30408d5d266, 0x222deb606f13cf28c73a67216d88b16f5958d5d292ba10ef3bc2c10f5a0b613f, 0x12fb88a0f6f749d68da9250d5adecf088442827248d67f989fd14b5c9cd4d4c7, 0x66292e64e6a2c64673aed365cb50f7bd4e1d3b5270f6b2e9982590c3f8400e, 0xa94a2d7c4093c638823b095733f37176d7e747ba24645b515ac2a241ffdda81, 0xa226128da1d9bd5b329f55f52c75682def3369ab13359dcb7d212eefca86229, 0x1b5da83966361586e8810fed032435caa80a9b476db21290474ed1977fcef22f, 0x2fa75deed281db734faba5b70eaf57962f93e2eea1d3dcee34c81ab1e9fcc0ee, 0x128cb3150b15cbc4faab14bf7d676ef3682b52cabfc8d3419dfd98109d19ecc0, 0x52700b19ef6d42ea392e044a094cbfc308eea1f72f2a3428b1e721bfc32c6ad, 0x22d1e64d4ee15e60c459d851ef9f3495e937f5a90990382c97867c45b7940071, 0x252e74746677fd7584ceb0f8aa6936bd04f9528ef600737e9913fe4b5698eb28, 0x1614d025472771fd870a9e9d422b3571c5494e7d679824d8fe1212177d5fa2ec, 0x2f6c4e097bb5851be12bbe2c712c2fa906f310b78048d695b4aad301ffc0d268, 0x8a1ef65f52128eb3b22df2b6aca30509b0af8af2f7888eee766c0c24871188b, 0x2f6f14502f20d958a9ff23b696cac3ae24967517ae8b2e9592daf451840bb98e, 0x17ceb42a19de6dd32e3b38cc2990e64273b52a5618263eebfa49d84518ea3bef, 0x2adbde5c7b73e9a7e22b913f99e40d95e689c65c428c2397cd273923cf68ddbd, 0x14bfe33115df293670393e1dc8da4d6947acc4b60249e5b1c8cae376665cd580, 0x2bf523cd8aa3be20ce7d891f8727a7b24b72a4d4838484de842acc782fd8bd32, 0x33b93a5cf15ffbafa2726f2527824a11af8e42e01d3a7ee159b273ca0a6520c, 0x249f416fae5ab52a435d65201006dd8ae8d54266e4d5643307551902423f7cc6, 0x19a9079a9897a237074252767912bed7b7635ae8ca0ede2dd3a42a75c1c6b81a, 0x1358bdd6b7a51b1f5b5d094dbd8ee086ccdcfb9c27faad0806e8ef718d0e2b1, 0x1c06c782fbc0980b9e493b29a5e4a04aefc668cd4255d6cfe208e9e7c8b9a1c4, 0x24529638ebcdf26de8816287fec6370614e112e10c039190c103a75ced11b426, 0x12641cc3cf50ca67bc93bc8c19ed89d4613e9e281a51cdf313cbc8111922242c, 0x29012deffb112eb14034159c59162f866d4a1803b4d192a4329359f0f903266f, 0x1a8b8ad1ecb6cb888273a90bef8b1a2cfc03dd44e0b28b18e1074e404a9e0f4c, 0x17ea198f3ab261da000152f26b0eb0ebe088a709e8b06a18a3dc2108c2096864, 0x45aaa99ce1e06a3c02150804a91087f57a43b79797773e83216ca969e873380, 0x254e3acdbc75ac592679b032b65a9c91d2e092ab5e5719551b5da635b13e9471, 0x12a996abc8577021ac7880c16f058d9e06e9511187f0aadff6bb640e4316d26c, 0x777edef4d91520fcd490a22dc569a97e540a0fdb527b4b1a3a854fe346b8e7f, 0x1c2007eba4d1629846bb69404acc84565de5d24620f75cfcd9f11feeeb3f3748, 0x211865b7f9c1c791a33d703ad3280f69756324349afc8912a19b83de2cd06a0c, 0x12e4b5408f48641951739ea27e521067240b82aa51a42de2d4dc1e8225908187, 0x2185c7a4ad8cb21f19009396f134a2c3fd614d305e475ddd19f26f6d4b3f9ce, 0x9c4b2f61adf245266168cc918e96f7f8dfc35bd3df7b23fc641ef01bcc71cce, 0x281eca14bbc3920919e001150451c3e44ff18e1dd1171412ff5e663d74a073c1, 0x533e8a454b8cd6df8d48fa9b0a9cb2952933e1a6b1d423cbc54d0533a72599b, 0x284ccf70859547fcb9c3c7b64cf0ad62e51726ec81b58eb01c1a1f8ec7a9eb70, 0x4fa5620a2c057dc552a59fdefe50a901068190fdc3df8761991cab50a01a449, 0x2d2640a74ede9af6c9888e5f68a84fac92b13337dad8fc6152fab34b55419908, 0x121a3764269fd35cdf1e621c3dc6318f47b862380ba00357849d8840059463ee, 0x22f49d7244077e41f409c0b353afd1696e3aa15ffdb4a0bdb883ffe7a1a87217, 0x25542e07c1c13979bb14f8d4ee93dab7a3dc750806cf37f2c02ff53b4bb9e66d, 0x84b88b1ce4598b701cf96a3379a02a3157d4193c8a8f1157459f6a34ec32fb, 0x2f6da385450911cd272e13601e7ce66c2b91d809307492f7ee578ae34d6f5fb4, 0x1802b97e54bf3a8978632cbe10e429705b03680325d26ea190c0f1ebc7362ea3, 0x54cc81c7d1d59581ebcd26b16ccbdcbf1968d77f87a2081d13054f51118f7c, 0x19681b4242d11e28aa72530cf33a7d15719f1a888fff625e04652c77ee2b2de3, 0x1abfe4b1cf5db29d4078e5289bb143498abbbdc9af56720470a26a3dfa2ba855, 0x1d2279673f6cabf0a1c4b8eebf8e9c78361680b2e59d7ec19348819f5b3d5a14, 0xf246d2fbb4e1217f09631fbc8770827c36751e6ad8d6fb16810e3395143ad80, 0x2f80ca151b077b50767281ea5d4c1f7457f8da444dda16d8149bb6c1061ed0aa, 0x1951523a4270c54403dfe3218fd3d4ccefa43114f1b19fb2c2821a4374718b9d, 0x12b5a09e1e95e0d01fbcd234fad473d8ee2ba976fa22827ffa6dd03c8b25a64f, 0x2c184e904d7bfd368d4495b9e3027f9af6b9313c8f193f929ac9e24d10d7a36f, 0x16fc48e55d64d83010ad573377ea2422397fc3a7e6c88af808a566de0223f0c0, 0x2db1ac4c2b1c23a00027fdcf0f663af896d87415bb035b149d28ad3da98c6fcc, 0x170c05a5f8a55d5c9fdc5e8238b367be358917a19a28b4c47e46f3e73d42a085, 0x1eb7f6e5520215c15e274355b19bbf71abbf04aa426cd07da536cb3f909f6e57, 0x14111a74bd24730c833699eb41b38f1d4ed16fcf0fecc1655b76f2437d4a0c9a, 0x2d46b48e5090c0c56a390de373f4c9a2008db311fe31063cf4fed54629113585, 0x15f30ebdfb8b8ee644241039a26b408dc7a8de77f2cc6fed754b703ea92dde53, 0x1ee950c45a0c2f4a4b64688a7935ed2b63d4fe5b414afa05c1a284674409f165]).* from "../poseidon"
}
