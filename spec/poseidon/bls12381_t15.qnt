// generated by tools/gen_poseidon.py
module bls12381_t15 {
  import poseidon(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513, T = 15, RP = 60, IDX = 0,
    C = [0x530a43ac8865380843927ab06dbc71623995c7ddcf1bb0bcb80af97cb948a9f6, 0x2d76a24fdc78323436b5813ec79bfaef895739c5ab8938bb98182ddf02dd0fd3, 0x625279efd4a270672b1a32f460ce28d3dd2ca33e257b1e86b4963f8b4736163f, 0x88d9866c2f526cbb3aa55aa1902d9d9d4eec4f8e986fbdb1bde9cfab0e8a30a, 0x6674a7c8426a4330fbcddbdb2bab67754e0edcd876913b87d73c26b1bc9594df, 0x57c254091892920bca534528fe7fea7498766d8c8a57de2a858e101eaa28984c, 0x414bc429bb5b7b937b8f85cf5cbaf2e9245360faa69abbafaecc52c9abc92d62, 0xaadca3ceb74d720b5063f665da5c178a4efbb6a016a1f0d15d85c3e5c2dd8fd, 0x6dfd246633e798ec4978a950f1879d9b5aeb041086a907285032baccf5a90489, 0x67be1ad653bf6e375a77665419963f800e82bbadc3c18ec440a77037124c046f, 0x32e7730c11e33f2483c32b9ef332d27016f2087d01a462c5529e6ac4e585d5a6, 0x65cf5b867aadc914fc77966305b2edfcc8fa4651baa7c991ec86278c2a6bfcd, 0x54099082207d43c2abfaa97cc2274a938a14a75043155bf1be317cf5e0058276, 0x50e92e4557fac2eeb8ae6e08ef6a9b95840affca133b30d5d1cd19fcca78cb76, 0x1d2c80123cadb7d1662d522b89b9b45565b92791e797c608e2a82475e0e71efc, 0x3d579eafffa9580264da598e2c5e5dfff494304ff101863bae85d83fdc0ff542, 0x356bea20f121eba8d3c89513161affffbf6e4244aacba1428f3f3f7c84f6bfaa, 0x728b29d2604638ebc341f91494fc66fe96f2bc631be732e4d275530ff250ca26, 0x29239cc43e0499b0d959632edb96872fa03a4539562364df79e0e6329e69498a, 0x2f7f099ddded15475e35a6fd0d130d8884bb0582709da53af6b36e9ce4dba94c, 0x5d417a25ad293b3da042f479df8a738edc9eb6561805412781a36319475cc8f7, 0xf4ebaca1de750dd75f13d8924e50fc065f5908bf6027239a968126671390add, 0x5a5ee84b47e7aab22ee6995d11cc7e762c7e14ddfffeccca14c2d8042b06536c, 0x527d4ff5f37173e909912e568fdc230fa4ae7d8c5a0e01b133a4202756ca4051, 0xa6471763d9c23fabda475af038d927867ac77f9fc73dc8e1ec6d4fc50d19af2, 0x2060d9b6c93f9fa007e5066d4010aa2a811c725c1d0aabf28f97439cd38b7a1b, 0x129551a17213adfe30a264b889ece8659b003c8108d212511c779420d5634dce, 0x443cfe9202aa2a281b8f84b25c8dea1462c928fd2509eaa1b0af5328fb549019, 0x5b3801aedb3ca56887d2813d6c5163c7cd222195a938be0d0ecffd37d1dfa1d6, 0x5a2e377f777293828370c95aedfff4f8e05856236772caf9cf05c90af83d5ff8, 0x5417954df479f4a87e9b8dae68250ea5fbd88ee4c417256d07fdd580bfce1d63, 0x542fc17b1ff11db51c84a7cbb36a8a96d32712a26a6a7364855c634655d83b3b, 0x9534f417d6ab5b660269459d9d58201f9727122c50dd653c7b789a6c2729615, 0x2f1f2073b0993eb0fb2e34892d7acd4664b90a445f94ace423684bceeba4fd9b, 0x15100965f566d04ab31d9645a8a6369eeb180ba3f702170e5ecefbee5278cbce, 0x6cd8f8eae8530c7ce4f597c2f4e25c71d164332c2fea3c00a6784b676da3c8e7, 0x3c2fd5d3562fabf6afea22d68ae4a1c23864d08b85f23752626b1262b243e14a, 0x460113900761afb318627ba3a196501bf1ca27b1456cc21ca447b40aacf73e80, 0x63810fb92d683c72fcc8d1307437887ecc942bdd3131070690584a35348658b, 0x198ae8c639b6f7a45e207de7c3faaa2a39d3f7b454436a9c8a5e3f60674db988, 0x482e00296e091dcc4b6192b83057bdb474f054001513bee8b48515a7a82d0d9, 0xa0204b810df320dca08f8d73642a71137775e4631049905ad44e31a9f0ce7ff, 0x5e05ef424ec83ce4881d1fcffd210982be5c4dd79864449195e5988c36540933, 0x60e82cbc703abeb023b1eae0d16819e110faffd2786eb197545980fc459177f3, 0x306a0f48b4482eb00743020f78260330b535192b8de387f405caf1b62b8b8b89, 0x231b5b17b2d815d73890f9f2ed6050e1aba52e064d17bcfdaba9a696991b9f65, 0x2c20564c9b13ce6923f356cd4b9289997861e03b429ddab78ac9aff248f863fa, 0x4cdfa122d2f2cd5e73bf77e22e90ee21b66374d193f25e6cd379fa246d374029, 0x1e4fe34ee8380a5c5565219fdf36104510df7c1ce28aacedb63ee405e42b0f2e, 0x3afb50382895bef6e8211c07a0b3e357488104c50ba7b7173cfdbd563a7aaf66, 0x5ca0aadb2cad0c04964f8c0c750fc39824ec8012e4d038cc205f678cf80423e0, 0x800b830f190fdf3c904e876abe1e160172feff05b64eb41dd76243bf2a20b4d, 0x14678021e0171b229e38a82f8e448753e0bb43fc4c74b76d1f6cfd0cef7fe0e6, 0x9513896f76fb7f2c4f3463b3eefc835cc1b243a641cf493cf9509c1bf8b8a34, 0x32f18e74ce07f9a6584f226a6fab6a42ed37e69c444efe4f060ac515ba25cd90, 0x10177308146271948128cf56fc4ebcce05d05eea9262a4164509f10753ed5fc4, 0x630218a7560e3d39748924af0b5d24b8025ffa5762741644f7481aab1dd106a6, 0xc53cf93d4aa844fff336691e0c3d271c29cdd57397deae0697b20bf72a7ee1d, 0x731936c01341ed20f0a2fa3acd8ded41b2df71d0518b4b56c1d9b7e58f14fe72, 0x2d39713a1b6d1df813c0ecf170637fa71432c3a94d1f5ef5fdff0cb1b94ad082, 0x3bf4bd65c241670dc0d76a76bc6726cd79602e38ed4e850ca19421b4619dca80, 0x57530eaadc666e7c2e7083ad36e0bd2fafac188818591b8a659eba5d811043ef, 0x3d1ad34f33ea8690cd145059918ab910f86944f334d08356bb9205a255b8d94b, 0x5fa9ee6030beb7f529538f0e1ae99c4f6c45d71e933d0d163b51b7c656049e11, 0x3d6e3e4ff063bac7521679451ec81aacf24a713ef2f6c0d71eedc0d84c4e96cf, 0x46ab24bbaf649f2b83a2c89f4ab5b89d91bc3775e87c088009093fd289485e5e, 0x46409f5e8e783eb6e1d64a4789e55a766615d60b112a17b17af8caabf5522856, 0x433614ceb9ffebf45e8850445e2561cc596887264d40adeeaa5f6b9e61671885, 0x222b7d918425438dbdd6c73ca512165e9fa93d0d7e60292da71f9d71344d8b40, 0x1c20fd4ce080b6ace0718ec54b1b1164a2d614d293fb68e2dd847b0be9bd773c, 0x568b94bbb5b0cf0bb8e69647c7771bfcc6f4083a55d8c1b9402066a6be2d3b32, 0x1835f88e31f3318175881dfbdc6458e0da69ad707e2de27df63504b2aa71a56f, 0x71874e9a367dcfdd2bb0cdbab534b7085df5facc0ea8765c939f46124fac7b5f, 0x3263920127e0fd19603887ecc3abd5023c068d56e42fe5404f8f95bd05a38b01, 0x465b58f67048ef929e9abfec78489ff3c9bbdbd6b3f1fab1954d424ddeecae3a, 0x5236a8f7d3c350a0fdda55a4016164b2475defca801fc2132eee72ded608b10, 0x508936508a6e5068a30e355fa6e780b9bc9b1302085fade8ac045e2270842120, 0x2f71f160c46f5b3fb9c84f2438cf290233e46d946f66f5a2e35538eb5e416c19, 0x625e7ebc9f168c4259335048d4271be029c91e19e691c8aa21d979053b596428, 0x72f66b6b7f9e799eca0ce365f96ccda7610426b6eec9aaf231a83220b898a328, 0x27fd7f95febc171cb4d7dba00bba4f1594cd0a2efecb8e694b0c1e5699cca9af, 0x3f86fe650a48fc1486b20ad43393ac166a8457f7f86a8f34663f373fe8958dfb, 0x54e80b644b3a048a18c8f70353b92362cc3424b31563066c40879a977d72eb40, 0x617cab73978baf69824cec6283332ec549ec57a52fa9d71e33631b6dbb80e8f6, 0x520f695cc398264713457277e53a7ec88aceb0a754dc6e47b876c1a535031cb7, 0x2968b612c613722dda7195a2f8dc75e5735df506c653aa3ad236e5eea0ce0605, 0x2a1b0739b4109babc7d8ebe5deb0449196e71627d1678fca42a4e74746b2c1fd, 0x66a0622bea0667bf906a10c5111d82a4f0772719c6c9fd4306dbfc0bd6291de1, 0x2505e929d931d4fe870f62724715b41376c3e38e09b3c587a96a8b11819d0c8, 0x345e99f45f8119724aab777e5360ed17e06c485339603d8bf492d0c3fc4e7192, 0x1c0c47f890f937285b9afb028da0841ebde8a19e511ca2f6c609491810b8dc0b, 0x1df321c87937eb9e4c9fd82b11ca4767eeef7714999704f84afc5af7e87c01d9, 0xdb76d1364ff53cd75a24f226ceee565ba069b706e988d99cd4aea4bbbeb860e, 0x32989fb009c5b47f1996299f64dc72ee14a61e44f872e0dd5a2c7c8ad03bd000, 0x10b8c17d224b2cb462fce47dd487a8a375879e7397709421f6a1a81d92582aa4, 0x11fab65240c27f09c95df67a90409bad79ab7b6174023ef788b861f130cf5c69, 0x1423a2bb1dae29b5d59321a55b39f77e04d7fd0e77a2d492d17b86fabd48c0e4, 0x69bb036229c3e1021ea5e1be6444b62a28db17a7012a73b67180fba67751994f, 0x60fb5ceb9c31ef46be232e4941107a3e819374f3beb83f9664fd6f6926f8ebe, 0x35cb7db84b3748675bf3b341d1734007a2c3531a5db644e7de62517202318aaa, 0x54559892e4b06108375400fa3a5d3ea28edf1d1241cee9f89a842adde791ffe7, 0x5a69a63ab34d49231eb3bb245ad2c8407575444da8c389a43e9788b075868f88, 0x11121709ab0a0d17914bb309cdcb0ba3fa267846aa58d13876d4036f7ba4e5a9, 0x6519ecd3189d08dc05856eaeac687761d91d01b6b30244230919919d9611aee1, 0x335c70c4658b7987f6a8eb0740f22a37ab1bd51967ccdf2058d97067738e8680, 0x26026ee7511c6f9c43d886105bf91d5f86c23b632fa145c60fbc1a51da8a301a, 0x3a33f89abd63c22c4ef54698cc741940f886ad7f4fbb696fa2e2fe7431ca1ce7, 0x26db26e450c1a974145bea9b4258d4a8bc086fdb479c66cd000b11430a435139, 0x6cfeeba8b5cd46b9bf894edac5dacce0564f8c57218991d1c2e802323566dea, 0x547149fa0591cf637f3a6eba9fd7a3481382f6c2427cb7275e7436dedeb7140f, 0x62aec39bff86cfb1ab089e572bb0cc44ae250ef370f249a146b561aa3848ec09, 0x16ddddf27ffc9f987cc4af3bf1b2bf8b5c42f8fb5063ebc5ff9a6bb5194e987c, 0x477b3a91524dd96623659b142bcfc7992261054f707fd7965d6117636442dd12, 0x2bbabd6cbc083acc0d90f3dfefedf19ea9ee74fc6a91d39e7dcb1184cc2b49a9, 0x13742f8fc873fcf8ea3095bb49786ec3a06f8e1e5e51dc3dd67af0baf035f62f, 0x2aa661b0d5ad3746ff7e31209540e1237b465a4cc9091f510c194bcda3750da3, 0x345df62b0b26365050cdbd14787b73c2f6435058f895b6bc93e4481f19905658, 0x4be8ebcddf210346589d98dca252127cca33d7b2578c1070199adff49230d07a, 0x2e6eb042792dc25875cff1bbca690f759c53656121501d0a2e596aabeed7dcf6, 0x1bd7ea2b2c5adebb7106f19f8822ac09b8183e5f8074a8e9a1ce5d587f188f65, 0x49319a7ce1d6cdff0b2e162f7becec869642f302b1561a9d5fae5f47bde2eae2, 0x5eaf637cf2fbacdadcc3a6e510808258d9db2c4b4e049dcad40486ee12aa50c9, 0x6352e1131ad8bacd40ea849e958b5f31bd816e29977a4637ebf03ff759d8d4cd, 0x32e3e053cc58e2173bafdf9b3e0e71debaf863ac3b3eb8fb31689d70bf2a84a0, 0x1e77ad1c35ecfff5993c619408a58377741896af21db413cac4fec06b51045d4, 0x4c367a18187919409637c08602a4b92c8b0b4d9682782b0839fc18c1ab7d8310, 0x1f3f8d2729f920c58b569785d23eb326122457ac57e961f5d13428dd292b943c, 0x28001322f645b2d6fbac1d7238be866466aa04065af0b9f95eaaf87b292cf45, 0x26438520576b9de80c3e974da91e7fb2f77f0ddb6248b217de3127656a379581, 0x3a5c15ff0fa30a5da249e373c9912f82f0a7a185cadfd5eaf4d86a5f56afdaa5, 0x2224354d0bf1a4f84b06c6cf07cfc5e2e085839cade6d66fd8cf7f78a8ae1039, 0x5f13840adb9ea80e5558b02e11b5451d89c3b6d0e5e1c4d2cca51a1149e1e8c, 0xecb78fcb0c3e875143c107175a0a17890f7a3f2cedea05e0a78e7c28ca09cd6, 0x51deee47d2e2ce733a4f794ff8bf081a9f18a0f05c2dcc768adbd3ede23b98c6, 0x3cecccc51ae4fec8b0dcef176670457873ab63e4690ad72059c2383bcd09125a, 0x396009ebd3d98276e6740cbd04ad7a5a0255adc47be32b35d1d11082b345e469, 0x6667c27224b81dde4d0c1be15a63d0e4f339e62b6614b94f632ca3630404bfca, 0x29a625a545f712fc3cbecf9dd7875712efc3db6c525edb2e7e6b4d0ee80e31d9, 0x1432d5448d2e79c701f281b2971d1e9c3d8cb6bfb2e27f922b260fe99463d33d, 0x27d9a52d10f0c3f9dde81c1705cbe95a84c2f7b2c079c6f168282a4475ff1e82, 0x3f436e35402a96624d38c6f398f18dc52347532ced0ef0de30d48844504de14e, 0x388ba82d341fe63ab28e15145f346d6fe867b4f71427ee1ceb44b35469beb786, 0x2335f61e318391575ca39aa364ae1f515ed8af3db08e862a64462b19c3ce44f1, 0x684abfe25caef2ae5811e4a7c01d3799124de5e154b14cb63279713ecc99672c, 0x497155b743def0dec94b9704138e1ecf12ea1643c96b4be43845085a7285170f, 0x5570b79222ba9f3e298bf5acf51a0df8ecd1134bfd1f6d9f9428fd6df7c8bc7f, 0x4e7f5680e7cf9dcd6b6bcb3561b0cb211ef19013a5c015003f90301f15565edd, 0x6a80887cd8936cb4c33d1d12ce95ef7f91454013e2478a202fa5939b02464d48, 0x3701fa10454e70896cd107566acc630f49a3bb0c1c8e967ca756a877bacddecb, 0x3d06421358c653e310e391b745c4843982c09f9ea8282dc01b15009040d23a76, 0x387eba7b0c2c403a501b918d6e3c1537cdbdb94e61c167aa661a686e0de0049, 0x20a762e42d0c08a8d85a2b039a27b72f71a8c6b273463933bf93ddc84d6dcca6, 0x5fa34d38c27f4627799b28205e747d63d7574321bcbc6b2bd4018ea427a723fc, 0x6cacc7946275823d7e5d147901e6fa5e00bea4f9a6a37ec1228dd7b4f778e4bb, 0x1196cc8b5b2d7a29dd9f9e28575eb395e0956817f470821db8b964839ded80a0, 0x3a10b0bd801f616ada5f572a2038e6ec6cc2f6f090853ec3734b9989d4e5ee66, 0x1ed6418d243315c38e6d1af6424739b27a6c08c596e9807e50dddbb8ffaf02d2, 0xf76b199dd19e0ff862f924709724dc843597d851c5e8f1365eb07e77f8ff89b, 0x3d502e6796ec85291fceab6cfcde04635b308ee784fe7059aedeb14b2dad8178, 0x2e8c2f2a3de4a2421b5866b282ad1ceab3521fb3f1c0287fef779197801a17be, 0x3d562e40fb16c0cd9e2025d89c648665e06f0320c01a5601e460e6de41803715, 0x8005e49ff2927f06012c9a02edc839a142c9d7054c008b1b03732f9507a5e46, 0xa1f70a83e32ff4f847e48926d6d4e488fe35007b9b09f772bbb9302063d7a6b, 0x46e0586868eefa8664b85eabf288c4723fbe9dc91bf1c5d9a97c563d91344cf0, 0xabc4486575e3210d5d59ecb9ccc42d3a819e7e1b4ccd114c542dfb406be0d2d, 0x4f9c4369c8ebd54dff7393b6fe5d442b16f68f353c15ea42a6c08aa5deec5b79, 0x6d91bf15b172b9eb501263223256817de238cdaaf59cfabdcf8311fc5530a9b3, 0x23e691978d7255b076e0444150094b2b8e63b9bf6f0a6b020e87c00002e8069, 0x135dced57df4436f4d2141d627dbc52057a38fb14cc60ebe52651936e401e015, 0x65d106135b6ca65dec40abaa9d8a2c463ec4c75a0efdae462327a07489705b6e, 0x3c6b529a5b99f650f3bfcb4da2108da11897a028f9c7d3706a7383430e7c6958, 0x3acfaab42db851e9584d8e1e0e5ff60b09821a27a94b27d61f807a30ededb956, 0x5de1b157d48dfc8ff636c89fa7f17bc0bfcedcc8ffbf63464891a1f4faaf40c5, 0x5cdfb65b6541c54628143ae3e3b5e07472e994c03fe297cd4e50ac5885871f45, 0xe7df7e3df649a0acbc76a22f9fd6960b2153bbf61a7a8d8f6ba7b0aa6b035fb, 0x33287b9d7bd93f3aabff8213d40ee0d51dd4fdaee315f09a911ab259e3b193, 0x485171857a1e720bf288bcd1e3b799a69a0071a190ca69e6ae0db71126dca6a4, 0x507380ea22b2c347421393fca652bdca9b3180412b5d9b3b71d7f6c0d3ffbe17, 0x2a915f2ac87ccd343533501a03f9ac4c2ddc3059fb5249e382f4ccd29a0af07d, 0x4cbdd0cd764d23e7f0b341e66c5ed455b8cf55facf64d579528ef75283a8d448, 0x332cd6d9bd9c3c68e0fb324b5f196d770057b441436ed666d5f588e715ca2509, 0x70aa2089b7b33eb5e4460e9e8f1e02e85d9056d5eb94a88273486b0363c7c109, 0x89f46d5585c731e5f55e6c893813bb32a76f0ca77791b3755e118608d7a6f1, 0x3ad03a8d71cef65ba0eedf60f70e30b0ba4183f21b2e6d1ae1641f7b49083726, 0x3191a3ab2786f8e788dcf39ba9d1859c22cbd780994c82d78b14a00ce3b975ef, 0x44bfc36532e2719ced9054f97128f269e0aa8bfe40db0ee6f4708d373980cebd, 0x4ef6ed5c07a3c9bf8e59c282d97c85cf1ca508213d170e0a4d19428759409e8, 0x4f72e385bb5d76d2e832e29c1b914e675d8b06ff482ac373f9b2666e776ddf87, 0x4e3b02cc8c9355f873d6bea0a4809d87fe2d9a0e4ea1358cf5aceaf461bade0a, 0x37ffc5cfd843eab90d40aa69cf99adbb44ebc81bacea295ec31cea00c7c47d9f, 0x3bd2d7c548233fe42845232341cac809d5b56b54998b8914f5cec2abf08b1279, 0x2c00c3b31c056e2fcfe325687534caa9ac3df0d0a791633cc34e1796b28bcce7, 0x20bc15107c1dfd1c5eb7f3dd072161cbed3127e8608faacdae1300db5b4b461b, 0x34e86bad97a1a902563c92a24f11fdbb3c0a86de6f08aa9c11a4b185b1dd5450, 0x555e28718eaaa8dad3e4bf78862c847dae0ef22e9ea9d87be971374a0903297c, 0x1c6fabd283eb0a60e19af3d4bc5ece26d53e2418b9958dec20cbbeadc7db5d3e, 0x4b9482fc1d364295219b707c240218d732924d661553c0898187bf724c79b826, 0x246ffc79be6b1c4eb0f91c15c725abd7ef81a7d1da47b5b8a1377e9599e61d59, 0x77525f9e43500a8d7a6fe9afd2543c1049f97f15a5cd05314cdcc1453f3d3fa, 0x6c28cfa6e4c8b27b53dc807480edb2d1fcef52b67cad0878fc9c8a6479d00b4b, 0x563d79f377c50e27bd30e0d1a60b6ee0cd6ef5776d21f6c77370ca8db3a0ec03, 0x213ff15a284864aa3973b4a98502814ebca88eb8a890fb43ac12cbed23a2d135, 0x2160a2f9ec52124729af9157f03b34325241cc9adc27200ce6511a290ab239a0, 0x37a634d63f7098a5e49c9c747d5a958c2d0cbb18b8a9c2293dbb64eff00d10d4, 0x5bffae1a621ac9a20a2b1724988029539fba4fda731e8fc917a5d2b1e387a511, 0x2da618e54e8ead963dc2f773d60da2874c5c29b67b8c3eead0820b76ce32ff5d, 0x71d931be702f2dec16518e70cdd3107fc3e2299575e2c68c27bd4675c93534f2, 0x59c7a598c029c8c3b7ed41867195d8f767f33c62863cf4ccf80ef2f90ac6ea4, 0xa0c62dae0bde927a7e294f3acd636485e916d6272eecbf5322bf60df29e0247, 0x3e4a0141de17ba80f89491fd03798d577c58de1a655a2a0e26375eaa5e88d67e, 0xb2ab45ff234f6df164aa912e0bb24f386ce73281060aeb950cefa0d9ebda18f, 0x36e3f296dddb77cb7d904753fe8173768035655c51e50d19c1d777029fe20783, 0x174f4a343cb241652d1a5a14bdb950c36ede7dd84473b595a95bd8c919bc9830, 0x43c8e6edd7203629f9672336a7d3079c5245872df7eee85203c591cce6c85fcd, 0x2dd7340c7dafdc1de77bb309ec50006d4846cf699e6bb45389795a4bd1f86380, 0x71ced94eeb9d6e1f4074207c0f1d21939bd703d961f85b4d4383fe1bbc599728, 0x488635d835d30000c5d11368d222ddf9b9caffc718c9881cf5f7a08b1ffab1ef, 0x3073e8fb47d35aa4c699861a717aeac6a0b9a52c978a82707864fe4b0ce4e9dc, 0x5e8457dc133081c7d0e42f3cbd88891019c556f67a152e35d3fc76136b945b5b, 0x4695108bee91e4b4eb0f0996490c96ce29e00c35842db80bb0daad1d1d16f06b, 0x1a8768ae4fcdc11130ded89ee9d55432f453966ee77bd54f342a8e15688d3d91, 0x3717a6a247112c045be1205e3ebb74629d82334f78cddc1340d91871ce5916a5, 0x6114955759cb164af58f2787c1f8d080a1b0a429fa0f061a8f7102b98b7e7872, 0x68f3ae63419ba32e9f0d771d40a4e265b300367c183a917de7c7244c56d9535, 0x58239313c4e183c7a074e9e3450682933d24d7b13785fed68c41ce931baa3eb4, 0x44f8c02779a9d285a80f46157b4c1559d337ed1ed38b6cbf28a4b96133d62670, 0x1dc74f3bc96673651b0c5ebf0238e5af3ca2b060b99dccb5324b2d607697f7be, 0x1d7e57b41dcfb304ad5838074ff3d3786008fef423882122e13f59e766497f8a, 0x39c2ec6616873476f4f67ddbba4c0bd82c82582fb8365f6192776c6f4b519eb4, 0x26bd1615c39bd1832b8d4aa1f379f461f9fa2a746da95eacdb684111340b67ed, 0x41311b3816fd952a462206ff587d8da11ca274ee5dffd0f6885324c251000451, 0x41fccff9744d0e8ef24b11e1ea9c35eb0a4a6451493553fc00861f7552453a8d, 0x6870272916b2022d48111e56aaeaab847a6653597168e9263a0b3822a835f543, 0x634a600c7a4ce5ba6643c78d2fa2e2d71372c8888c9f9228d07e6827dfebc253, 0x5c5c4e9dbd6dfb2c8fdc1df001a88913632d64c526345d565fb9646517504b06, 0x53f29853b7a93a6a6023ea13fc3f921c67d8e28da0a2456eb288428167ebe25e, 0x1fbaa2cf5d8f596451f3f17d0f4e81c139bc2d22f0ebc7dbcd8dd2bb363f60b1, 0x46015892557be006d212b956933e17735437f85d82125c8cc6ad229474450344, 0x65d0e55f1edd1307a0fda75490c069680a4722a6bd73312b36802f86ec7e7681, 0x22441d2ada7a904ee544498538724f3d9ec489fdf794c98d258a5bd2c25cbf83, 0x5209a7a7dd3212053105c46b4bf68b20df9b4ae52b458005cb9be19e52794b7e, 0x4322546c8848f92ccd659ca28f263a9e8670a6ab171c347611c88608fba702d7, 0x343a451be81a586525046463bfaf2be562ae50c098195dcd8ba81888fd4a3e57, 0xbd11e106b1898e38e7b64a92527eed22891338ab73bea3a1335aca8f9b9d5c, 0x14fb123fa91b9102447b3742f8cd82345cd146c0544a47061139a3dec47d7e0e, 0x34e073602a0fd191253899c0bc619d145fb911038ea3a122b525686964235d78, 0x3be3be5a82d596f7bef4a1883a2e3e24f211f7a1babcce1fedc9ecdfeb18d102, 0x22af1c69b0dae960ce2c73c6e4d9e947315d9f0f2511cebc688934aa30051868, 0x68227605e41950306cef72e89d22a72dd6903e010763df0f3bcb8e818eeb61ee, 0x6e92122d864fc39185abd6c8ebc536e74c2dfb7ba6d14068b9473ca9e255ad1c, 0x27829e93838df451d39d70d739000ca8fab28aae2484965beaf511a60de756ba, 0x540eea3b63f54efe2a4d9bbe194a1f0e9e1b22390b157293b8f1d83bb8a9ff71, 0x7281cf02c3dbe8e22a0f55b46e9aec9febdd24ba1840f8ff1020d3a03ff54fc, 0x193caad8ad7d20e045101b49077ac4efba9be8011365510689e775376047e4a1, 0x39ef93379cab91ae7aeaad72f0c472ef4250c8d102935dd20606840d0f3bb58f, 0x5bbcbef2f6ff3a08d20331dca3d89de3fb4cd4bf2a5b68c5bbe02b8d5eaf79ee, 0x1e202fde4c95979fc8fa475400770489b665eea188423abcc07b295022442a29, 0x2712898957f26783ec997934d571d71e9ea7f2ce7f8c55313b1c47643c174d66, 0x707ffd43b934a006c85d740fd67831a959a433034c4a1a17921e7a55ab4ea3a7, 0x6ef345feede07d5cada1970d08c8babebddf0fcea16c5f5b1bf3897d4585df62, 0x3b706f35be37936b2a1bf477ff613565d5130ef686235f98d22e58821b460335, 0x5d833f9d8dbcf9615169bc1d49986350eade180276ca27869f803c8a8363ad57, 0x37ecb4d502501b3f5eaedefd9a9b15c67a4403dcab290a9a2177655809813ff, 0x232e36d873690ac09bd027141a93ad3dcd08c123263749a2aeace8267d4c31a4, 0x33bfcdbab1a9a51a35c39b8ca82a88571c4eef6fd3ae4df82ddad68be41bf26f, 0x43e862c4b400a164363af11cbeb7dda4e3268a3af55ad0d6d7d122e55a1897b, 0x54c4dfbd8859fb231e01b23fc24957a31d6bbb8791c811f8af3555abb4a0b29d, 0x677a55d8f0da5cef61bc0d8e8ce4c7851d51f7204cc45eae641dd06800fd1922, 0x4c3917c72d6b09140999cc98aa5274939195a931c6226f836e0ae463a16bbd98, 0xf81497639e8fc476cf438e8ec88583990b9fa94ff657dd18e8561e429802960, 0x19f46dc07de44f8623ff7582bd617b5b2c85e800adad44513d6a69ebacaac3bb, 0x2b9ea028eac3061c4b5264c7b808f2bcb47edeb2e9250eb1a580904dc2e07db4, 0x5603a3e0a507b3ac992f650122550c56a1a71f307e66dc4022b16a1f31c6137c, 0xc9269852e54007fb10bc1a3e02400d40b60dfbcf103995cbdb012d1d644634e, 0x295e799c5de63ad89fb3fb96b6467aa312f94898492f9d46dc17f76e6a424fc5, 0xb18d71e560298585af8d8d6df7f2530a928033e8044e4dcd976c29f6d94ff3e, 0x6d3b61ab7f275dd46ef767f1269e3e6a1e0a286734f71a8074af09965c68705e, 0x4ee7542564b9afb897cfbd90487cad4549483baa1802562dc005ca4dfe445fbd, 0xc7312ec8ad10bb3bca854be5a74b26b073096d187f2f91e71763744ab5c8fe, 0x55ecd1a3f3b417c3410be55f17ec6d460ee57ce3ea30d2a7a7c0dddefbe26807, 0x19577b7d7d5aec6264c24ccc73e75f977cdf6f7bf2879c744241c58ef2dc0740, 0x5f41345a0f428f02356393b9645ddc7e34fbdba61626a3bb6b2f790957919146, 0x22e9f569641e904750d6259bec0df66067346176aa351dd0978c37cc5e637605, 0x6d1a57a91e7de253468e00950948ff35663e687b716896f569603c4516189507, 0xaf182d9d8e2fd7d90863527bc90a02682a1d42e7f24b116dfb3e58488402688, 0x1d9901e7007951360be7bb9601604e0c37c009c4afbd673f7e8e7e475dcff8b1, 0x5b3fec9a192f153c23273273738a63dfebc15ddbebd7d4bdde82435420ff35d4, 0x56d28dbaba2002eb1e219de5d82ce7c0072f5d1c263ebb004d6837a3350ae053, 0x2d9e72e324d369b1ba6c268e1d26800ba2f5eb086b463fe94181d0daa40c1b22, 0x34aca650bbe03736d574df59f6b9c7100f4aea32f691803d84b3a5603ca33660, 0x152ec1fc9ef458b07658f39abbd24eb5d35fb38215a658ce380c26b6abff487b, 0x822392fbf52c06c3c0495bece475b499e18c0c6284a6d325472180e3d3b805d, 0x49a91eccfa57c4395cbdcb39f8821181d050bb85de9c3373af0841965876bc41, 0x5f2b35f1ca8638d6b26c4b64faef5d76b2c8950f43e2a7e416d405acad71a273, 0x41e540f4cb78307be92c830a07fcbdd0bffd907b6a403c1b5450fa88ee877f3c, 0x770e013c39d4cc7d260fb31465976e55dd81f90b04ffd177b9f0de013c20330, 0x21de42342e0a87f13fe65a65a7050a60eb2c21b3616d24ab671ff8ab77c9fd05, 0x4a7a12681cb1b77ad39651ae95838cd72ae39f606b18df5f3691ba1ba1390c1, 0x16812285df3924fa82e92158f565c48ae70a6d5b83704e398d0ccf07a57b8795, 0x6061b46becffc3a53821acda97d68c14e003f593b15c7eb333195e86bcbbfb78, 0x38db5b8a61987beb52b7255b22af46c34f7c04f5abc070ce9cb7acd0794e4464, 0x32de6ebc4fca710a31de5b173be217dd2dcc9c6c45c727879b40106d3af2e71a, 0x71a3b8a0afb82d2d51476294746eb8e915268741fcfed9e5374647c0ab23d909, 0x7314a7b781bc2c66a0bcd58fc2ed2c207e1927639c0f5077bfacf22c071916b6, 0x730d2a3e74c0836e84a1009bda652744bb0a8b3546eaa4d90b305a14c32594ba, 0x37301afca495bf00a5a6149bedb9315dfaa0786c6c5249dc8c495818ba029b87, 0x12910b4fbf132169d433ed7bee46932f60f66bd6722b955a27082aa499be6da, 0x2134da9db40034a8cc81ff77859d061144c2ad06c65806637eb26f7a52204692, 0x5ed503562961fb48e602fb99a5193d763e09d050271b2224aa9030cff5283b69, 0xf4b53f966e6a8993a577ec2b1bd7291b2c169b7d6662f7c7ec44933faa5a968, 0x13bd49ed48709c745c712985156e3dadce0f4bd2c225de209c9b279f30175458, 0x4c82347901859ac325e8d096646ec93d38ba5215c34ed13e6926b2721e8e7310, 0x316b101f74dca01c0a3b3f20a7731a8c6540ec0955d904680a8c876f0185706b, 0x3eb457b81b20ddead3feac145fc2afaeca5bd749706142fda03b176d6cc21294, 0xa73d8c100a09f48c53dc46bc27ef2509e13be742da9884baf7ad30e913bc833, 0x3b43d117ed98b284d4b8ffb34aef697d21b7363acbf0896a71a1943cef72454c, 0x1ffa216d57170bdfb8a0661f92475e719c87c28ba1bac81729d8288e47d2a359, 0x34891a886f2890086dc845055ddf40e752a9d56680017b1a586463f67db51738, 0x2d78e0a52275ba4ee30bf15c8c25b38d8673cf1e1fc0946382dd12b7827fdf57, 0x6f9491dcfba68654cb8f2bac161904344e613d20b533251bc7f72046f8662a32, 0x5f91b987a663a47816ea9a61efc4d712313998bc63f234ee3dca3f9cf3d64882, 0x6740cfa55208fe4ec6cb3e756ea58fc0be5c7eed579e9a0e6fdcd06b4b21c219, 0x3721f54e2aa5821e37d0c15b7abb31522484ec2b289969d1ad8e526b0fe52a2b, 0x2134356838a022945af219c79c3f6e5efcedc15fdfc1d3346d7c53869c1c7d1c, 0x15b2bfd39da54a481805e9ada4658b9e2b6df324e53567cc89a48b0e7e87e3ea, 0xcdcd7c733fb23f4c62333aa07f1db54b1d1ec5d5d42000367a9c6a79869cfb3, 0x11fa2f6cb217b9293e76d1ccd42fa595d5c3b74bb52cb058acc69f1e59db61, 0x2dfcda84a0d11b7e4420e1c24b017e114d45f07035d6ab3bcd433cf3944811e1, 0xd21b2a532e463e61aae06a5880699beac9e0ca01dccd96735e9145b7393f6d8, 0x48d0ddfb5d18643934520f19e7ce226466fef823925ec7c7e08dfefa6a788634, 0x429f9699ac91cfb1827910a285143c625dfe94583353de1351ff07696141cfd6, 0x6fe416b4c3da7e140066aba5a6bbe0cbf9c1959fa48b57110bab90b3dea3cf8b, 0x55353c92ecf51926159ebd8ec7a81c0fa4b7efb575919d83b6554888486e38a6, 0x35467ecd3739eeb067402bb80d46c61efee9daecfd9f418cbbbec0e93e8d2251, 0x3fd7ea7fda060f8137749e30b82443d3e85e183978be13df6f2eb95d73cbcc9b, 0x73d5ecd890b5a4b09be3d949498155e352dfd10bbcf92a6bcf7349eaa19ffb57, 0x5cc07a9867868d96eda64e99e519bc7f0c31e63a7901d3c899c4c6f22da71e15, 0x7004bc83c9f8ef87cef66d560b7bd0c1187a2be50b698681cd54d193e85a39dd, 0x3e3d2ab19ec5ed7455e419c4ef924d76ae8bf29256f06c43dda4c742bdf62d66, 0x1722850f34765531df6669f3acd7a07effc9947d0b838538fd882527275d19e0, 0x42f996f35c97047ed01fa76e9d778bc4506b6c5dc7e71174cb3922f4e120289b, 0x2f5dd4ecfb8a2d8bd8ac975edb120743bc2e08755b8fa478b0ce100b42af1564, 0x4278c3cd341783bcfd6c64a51c96be6df6c8c29cc8ec29f68316e386cbc09ab3, 0x646bae08b5ad7e4b36449a46632fe990d2d51efafe9cd9e3ec9d8b0df521a43b, 0x635f26c01f7e0efbd622cac1970d394d42dde3d59e5f6aa19889e70547154e31, 0x680d98796d7ac5ed38961a3464b024b64aa59bb75c81eb25fdc9f26e677bdfe6, 0xe7847396ec8fb3b7bab99e344a37de7637f14bf2bb86a1cd77fef5ac3f14ea9, 0x608651322fda6d88f5c7c2b26b0504f13be182ab0cf9285c3e5902ad3b0084d2, 0x1555916f8fc634d6b6de8667f772fc78dfdce8e3da5445153623816fe9e3f48a, 0xe1c24e2240cb8b634714ce969d88511c81b38f7a6624fff7ed01f214655f43b, 0x31d496f2cdfba57d02ebd7d4333e896e9d1a32841c33798039ac6af35be7b3d8, 0x36655be9ca344887f342b623534a815ed79c898cfb5856a6087c71c4b4dc3797, 0x401038641614566b4ac85a569e4c7eb7dbcbb295994369b36795117148f4f42, 0x66d2acdf34ba7caa0f6d38984cdaa841db958f00388051c799f379fb6b31f0f8, 0x37b135b3815203f95cda8d7940722d332fbf2c7e7a877bcefc03dacf0434574f, 0x666217f36cf328f5ef7ea8a4e09956e171eba81c5620948c7f405cfc90c1d525, 0x8b88d708400b11018c82826b504697767113241c6ad0bf6e69614b56aa0f3e7, 0xd75988a652854a21887cae75656090ada6fe4e76101d9537a43e3365aba65c0, 0x1c1216d91a061defdb276f4ea22927db63b1c5bb88f650cede5eb39fac6ad42b, 0x2d739beea9c4da5fe7c8df9190cdfde165eddd8f3633d5ee7d056c595e15fd2b, 0x13889b19996efe2ca9ab91261c7575af1eee77eed3ef0da8c80a644155c0c2e5, 0x24166e9909370523ec94727b417a42ccb70c17ece6e726510344582305652a82, 0x39678cbedd26c0be01d547ad8ef43ca3c450601bd46b8937985201cf417800c7, 0x5d8bb4b026bc82be084652f88fbf18adb4b6be6fa5146a80b9fd9a0c59571143, 0x9e1a32ebb94d421ad402e5234c2fdb986c7072927ee5f802e4ea104b4755b31, 0x1a31ce16870c0df1a1ad74840d8dc6c6e859d0a597b91e2a71979654239788bf, 0xdfd692a011877a71d8bc550a177cb68ec038e9e9806d5f5e9775bfe5c6b4f24, 0x62d691baf09a5b2fce13b5b553ab1b05328d416e4f695c6818a4166226c3c35c, 0x6da903db97cb6b5ad0404d6e0d69e6b92042c320958fd999e097600c763ccdb1, 0x478fd25a47b19fcca05a8a8f300e2ff5fad05bd6a3dc5600d38d115132a661ed, 0x49a4de2c6fdf88b5cac96d2b841914c984344d7dac3c7ec23b4dc0a8a03922c7, 0x2c8a830eb86d648ed75e8917cd5080a8be8ce340c4a7f62428046a090718d12d, 0x1e5289d08aa333ae41c4f1b07e73e23eb95522a29eaa2a97dd483d48e209e2c6, 0x60d1021cc1d701c22fde5415e444776f9b1d7136ce468daa23bc13e1e12bf7b0, 0x40fb06c0dda5a3b4cd26cca7efe93153c970c613198b375019fcc626b1bab4be, 0x2dc0281e037ded7a17a5f06d42b06e99d9db905e5e4ace7bc52ff01ce9073cf1, 0x3bf2fa92fc96d356e2103585af8b2d660841c61c860d4e1714624d723bfda12f, 0x49f1b6d6aaf4c7ddca1f1d8a5449743c772edfabdd78258b1f645b4f56d7a489, 0x40eada1bf19480f9eb8f4b46b481af83989d970c199f90d6697f6d4fb153082a, 0x1bf0b480b4ddc66e16fb13b7a5c5f972d2d914e7c63735d2dac0c00cfdb91575, 0x44f2885f14929f5d7353cb1c3092d44d11be994951cd17e778e74822749559bb, 0x3e0b4a2db2f7af472b03d3e6ad802384f50d0c6a052cfe6de623958fe57239e0, 0x2374ce366d990808b1f9fd94442ec30185a43a93adaa231c08dee26cb558ac69, 0xfd4031ab16cf336bcd9c95348ca351a9a680ea8a7196d913a3fb25054e61b10, 0x4b8aba5124c800074e9bef85e707fb5018434241f3b13c3028fbf401f3494399, 0x334a44fe24590d12b7300d97c72b11ac8d4ad26d02ce37fa6ba08a1ac84d103a, 0x44ce805ce6b9e5d8092f8ec379ca01010b3c6532f6e8076bb593b25a39762069, 0x44dc4eaa86f9416f368226561a5dab6acbede583f9b11b107eeec90cfdbc331f, 0xd21a8b8f5ee15089c792c784bd8647489b8e7a37ceca867bc4809bc9c414a55, 0x3ad477670882354b635f4f224ab1c5a5109ec38dff6abfe96fd6e90a14f4035b, 0x3e9e96edea9a278884bf531a1b95233eada6477187e02877be1068550c7380cf, 0x46242386f8ef828d3459d396a0dc9d70c590bed0191ef577413a08a976e51d6b, 0x24667069deb8762aea46e09c860676f05fb919ef3cb58a78f51cd55765606ac5, 0x5665ce1a9a1ab07ae53c7553db4a8afff07ddf8e3f964b2a2ca727291430aab1, 0x735b14a5979f1d2dcd0cd1b908bcf6ce651b1b6d3098f24737fc421106a12661, 0x21830f7b836f321cde7da72e11b5dbfba8036e6804e35badda095db80e05ce45, 0x30a15de3fc2e7eb523e5354f29121ca778542ace298df5c39a26fdacdaee2b56, 0x3ecac5411d888bb3a7d639e252fe54037119534bd8f09c0d6fe7e3f0249f2f67, 0x1d8b32b64dde6674a06067df64e6becfa147b5464fe8c12bae09cc91428b2836, 0x3d4fe1b40381c528f72b3d4370a6271fa5195c88d71dfa4cc47ba5adaee10a1f, 0x3555880f003b5e4b780bd34e102617daf0befac9f6b6e660d826e3786758000c, 0xe197aedfc72012a9ea2e605869a514e70014bcdad41285bbfb7e6528b03dc6a, 0x6491e5be5bc69ead455e49dc08e208fd38baee8bbe1e8eb48b662d184478c6bd, 0x35f1c05d5c21da3540d7b280aef1ae9bfc740498fe6607bc71d4a31c44c87f45, 0x2f4dd81bd52ad98ba077b15e518d920b29b79e4061b3df70ec0290ef538b25b7, 0x6d627843fae047a25ed4c38e5b286fc835deb8dbcc5d870a7930ad26b4a8ad3a, 0x2c24be01eaa3dbc34bb15ce081f4d8263332272ca777a61af008bc35eaabe1b8, 0x2f627bfcf3444de241449c348e48eb2cbb05e6db12e2f57ee0b703a7b39fc379, 0x6e60d741713aee93ad3ca8a98d613e0a188c6ed6619ac5ce74eac701d783cfec, 0x229f8b8d04aeb581b5d9e447c74cdc657356b782eef5d57738d801e20eb715f, 0x49bb844f589d3218552e1d22ac2228b5d48d80059c92020c0edfb0b8d7a91a89, 0x24f36dea9d7feb36a11f9580dacf6011ef368a1779469b4778c5929411635f54, 0x302274cf432dba26e053330a9d0ba4b447f2624f6aa1aa523c9e3816af1792a0, 0x4176ab161e828e0094b791c1972723429645c298f8c8dc38fc5f70a1f8a58f57, 0x6d9314a04ca8575cfee592857acd9797363270d2e7a203cfed746b19da2b18cc, 0xa269688ed1dd94c9b6c7c573996de5306028e4c1fdba0751cde7bc5c9cae822, 0xe7a7f87a66533ebb25275c58ba57fec0f038902fecb5ac84b6ff27f4b6dfccd, 0x6d228f672417b78cb1a927a1e3e01e77cd8137301d7a3b658e522feb06bd23a2, 0x70c2caa33e762435e0111d8f1ad3139dbccb379d28199e5226acc4184fc34254, 0x3c52e6a4fe66e31b98d1a084e96297b2faf41b50226f97694f234c1e93f081ed, 0x2f0056fd4cef415d4af309ec67273f28caaf951f84ecf7eb55ff0ef116e2a929, 0x2c1463e1a7d17c1fe78d7bbc9c54e470a6e2a3a8ef78946f02adb80dfb11701d, 0x152b41043d0d6b62d03daaed95469a18dfc509a09ec969f8081a3325728e95e7, 0x18d9ac8020f58172f97433d801e4d0568b9ce60f483e1b416ce8167f6d6d77af, 0x71e1da05b944f434c2711996d52cdbf0147acf79203b40a92b93010d9b146384, 0x2f059c68f8dbb4f18834e1a1f9845a4bcdbe55c38ca841290b7fc9e026a3948c, 0x5ebd90e8ef12ac8b3dd350f926268801ea4570b8826844d7c42a8afd83116292, 0x348d908d5511a027023ea01a6b0fea864ac0538e45272ae68b530a1da9151a61, 0x41f1d3da20716066467bd8961469f45fa56005d881d5d0ff90fb5a19c69946bc, 0x4726feb9a32475527594ee7807b81022ab113ab92955e8c00e5190d3857d3d8d, 0x2b5a132457a3ab0603ff12d77ac24b1659c40d220527186a4f2665b46eb4db25, 0x49771005ccd98761d1b72e0f26116c39b8e4fadae637ec6f2a4238f7a9a3941a, 0x4fba4dc3bd4e37237b24825c1f9bfb6f7b4f38b3b7ef3647bf7f1cf2b503f4b5, 0x5e3a86af3b31f8d49a32581ed43f40c7fc4d08e3feefdd58ac86daf73f3152cd, 0x354db78ec06e5c64518db5149e193fc97143af63c79d913bccfd9d579acc8184, 0x2e6e7d727094d0668649e93b7cf2e607503208a9a6319abe8c86f19a59ce1bb, 0xe06fcc5ec7b64f620519173c2b0c5f4605d2648b7ceac3a6daff54d6653f890, 0x47a19f207ede45322e77f835993e747c361a9b157188d1d8d1ff47bbf5ef14fb, 0x69637b109e386a12f3f6c13ce048e48648922b394e21bc860c68e56e52038832, 0x29516deb942b64e64b2c281f80160223a71d37f09494c229c0ab2e5a0a6d7d29, 0xf9294a65568b3d5a7b9d41fa93a369e1a5937a49daad03ff6cb50f1e20be883, 0xc592caa6472535094979d6165c12352126cfc6543c98d4915aec96d778505e7, 0xea27b953120e67f10eac56b46697fdaa0e5d311b903894a853690a423a6fb48, 0x1da6a3b1671e3e3895f820bf1a73a237cc7f09c4a2015694f202f8db060021a9, 0x629b5506e11dac7bf6cc1c29c4fdec8b4af067a9699dbefcc9285f2bcfb5a2b6, 0x68a96a4f5a1c46240f83bdfb113b726a988863d0a18c59b75b2334895f727da3, 0x1c79a3d0646bd3438411403494b5b19a0b0f5471aa1f610099d8626fb7f6c27a, 0x30cb410de53b33895ea92dc5d796b60599ad96b207577aa9debecff1d60ae0f8, 0x32d84ed8d4588bb6f957f20c41004bfd274e138872ce01d91e761d10feef42c6, 0x6720dc80978aa0b977b7015a2034b04d8b803a75acaabf3245a3eaa3ab09d916, 0x26fd9b697c14b4fd19372922974afad6baaa322ab4af3e96caf50294dd133990, 0x50080a30d0e7f76f715b74f2d463cc373e265443ae80cc9c75fd7c32c118be52, 0x6b854260f1aec97d9176499d2f18b5523c76fd6571baa57892d19b7ab7d80f62, 0x34e43c1bbb1f07108626d29389cf3881f4d8f8a7568b0d1d3c87aebd18b49d2, 0x4de223491857a9f278654fb1f67aab53625280f58d1197592f99467963bf283a, 0x3f13e4aceb552b03d455e894ecfc874ce5e1d1b1ecf6e677c864f33a0ffd85d2, 0x6a47ddab3d36d7f2caab14c42feeb75c3c2c94cdcbca6ca944335e94fd901281, 0x6bb90c73d72f9aa625deb92d5fb89c608a3a174cbb1f30c617cf9b2309805c6c, 0x28d0679b3a7d1b970b4ba3615bb733db49b689cd91b96521ae6d4d317dbe5d4e, 0x72ef3afb2e0bdcc7e94bb7f9ac8f8542a69efc9b2dec1ff1c7d78c18c84edcde, 0x47ad753c405f63dee2712c10691a557656e8393088963e1c118606e6f89c775f, 0x2fac150f4ff713dca4dcf6bc64f4779d6e0ef3beed9f8f6c4638c9243b71611e, 0x344e9ef5e8f92d31e2f081dd3929080d38473b03900546e400dde2aadf851b17, 0x18110fc88ca207303aaefa420d00c7e561c749cb59815c59c73a49562b686c39, 0x4fd5c77b9859f73da40c5eeed7d04804b1e61c1f43a5007cabce96fbc12495a3, 0x2db81750cd6e0091814e96ce9af7a7414863c4136a376907ea388cbae7e505b1, 0xb0ba194637fc8b1f12fe381baab901f2e7500fdff28652c27f5bf4271f720d8, 0x8b7079a0b72e9729d2c50187ea5bc34b92b64804fc3e3657708ed0525306f5a, 0x704ff8fc12286c698440d4e6d08510681ca70f7c7bafa7d558e67614ba6ea50e, 0x5c963a4bf3fdba436f43305a8c0d0271e8cb44af9e04211c39d10d60fbad0664, 0x20a1322cead2384c52740ad800e9bff2f4b64d0b462712a54463311ceb2b318a, 0x35a0d82e748078919b3339eae1068c413984f499891473b1a2dfc03a93a70f8d, 0x4eb82333e9286cdd468c6dcae694b5f201eac002386ccbb06b36a8a7fc1e5a1d, 0x1805188fc0bbfac9812e3fc24257dd0b9c6a06f9a79775769fef4a72a9fc03ec, 0x51c29edc075ddb766eda06538ce4ad799e9fc430dac4a6b77b7ab55ad40acd83, 0x196e645b441bab793fb953da47e6241af6f81d9aa18863d6dc585b09362f11aa, 0x658e96822d37ce3b4200019fbad767f25959ed2be0d9aa7070a4e1aa80fdfa9, 0x66d6fbeeca48fb4fb8d03e8077135dbfcbba9a8a25135185047250c501791ccb, 0x42b95cd4543113d24925912a52e47f9e7a5dfe1300b4a52db01e8cc891751f84, 0x722f42de5f65ac4242a93f609758eef62d12733ce74de1ca8d5c2f99310e7a1c, 0x33ac3478b0d6b1d75e1b24d9fcf188842f5702f367b2326eeb1d3ab8b8d04bb7, 0x5a461d84d9b01dc39985b92476e7f7f4c8de7ea97c7a89108303013f1c24c786, 0x5ef2bb767ef7808d0a847263a55142323ed6c29806409ff4008cb8433b5cb19, 0x4201925be9f2d9cf8221e166fbc0b7792a5596901fa8f900ea88f924cd38aa79, 0x1a81109f994240086a46388e3dd2f153afc53951623190e0b17c4761826c84f8, 0x13ee4007b1bf3066b87d17bfb5bb05f592493b4c8acf2c973f33b598bd908f84, 0x4892058fdfdd451e88c803d0d84a75930d0ec1463d0c6a3ef290d738dfed5b34, 0x4bf0d4c48d4c2a3f5a546358c049d11acd9b37645140f3a7364676deef7006ae, 0x243cc62fe88d0dc4c3f15e18e83fe6ee60d686ff161e76b410f45753703c3a4e, 0x2c5fd12c02b1a0f463355fc8bd75baf902384fde2f07d53a35482670cc1024c4, 0x53e37adee44d3bc4a51fde1db8cc8b0560d852ba9e7b2c13125992449b9e3638, 0x41af6012bd5fa4e8f3d9cfc3f527a189af315e8721548fcae741f78d29f47417, 0x6e848954fb80616050b91f339cdb15f42fd3169226545b14c51230cce7f00949, 0x763d76fbec3bb131e1802a49d9f0b91e22970814333feab45ce642257fae415, 0x27984b90b22305b537e969850da89d2f0c3586e1cd9822304cc04b5e02a5e6b2, 0x3568bf28065cbf94138a67e820b32fbaf5a689986346dfc92edbeedb27805e62, 0x5ba5b45f4d9fe003963187c234f4acda5e059d8418262219568e65ba44504ae4, 0x2b36592d5d7a5d73bb24c36d825db399e76e287416399b3615e402a7af3bca10, 0x69b558f840f462dbc7463b3498fb261d8037468380630080d2e274aab13aabb0, 0x40e3951a3ea58cbb7e913951b30bb0eb2a31aafc3cfb2a956775dadb86a96f0d, 0x83143c8eff0796aae15349735faf78537219e026c8bd2906ec538d0886e17dc, 0x3157c2832134821ec5430930dde4e4a6663081a1e76e4c77a67dbdd2c0a337de, 0x7cf61a11e9baf00d434a8c175cd670bb466253ea0d67edd9cc1d46ff0af5804, 0x5f8340c1df9e082856bf613038c9e28eb20572d89d59d630529f0b03d30bdd9c, 0x2f94226f8258bbe7485685002c628f1610485c9285be3c6d1d1618f8b784e8c7, 0x2ac312829bb135facbf904985afe1d84ad8181e3e10ca2d610b45eb7f7c6b698, 0x188d0cbd178231de76e220eb88e1e94c7c7a4996ae05af4a016414a0b6a0148d, 0xd52a20e1bab3a99a7aea6e579621ec6d74239acc02ed3ca12055e8734e9c8b9, 0x6a58cd0030494d32dd970d6324a1c1b4e72bfa02ef332fb083cfa5df0068c8ef, 0x11368279841b040772b29fa6875fadb57eaa29e21ecf29187a5b2695e8877f98, 0x5c3a244e98a7e5bdb14a9fa5fa571bf286fd82dd6c5f8e0c8cd03a94560b98b0, 0x5023b9366bd28681950234e770e4a7c219c3de3a0e071d4b904ba4f308732d9c, 0x7ac2d0fcf03c5d908f3c4da6f032ac441ad0278f6027b754883bec35bc2b8da, 0x5b43a7010533ff0e3eda36c9b09d01c50a05a22bb9c1cf0577b49a83dc772f00, 0x39f5bbc1a6cca0d8f864b3e60f05021078606d1868ec2dcb4f341c32568cb258, 0x668cbdbd487662d21d168c899f78ae94dfea3d3ccee34044baf3af245533f828, 0x4cd5f668e4d93eb45e6308baa8d247af42c59435910543d7923b871f31cfcc2a, 0x49d8eaac074c6d58d5ef855eba94ddaa1d40702c964a69e60ac0b948e8e4e53b, 0xd01de099c7de15146ea5b07564c408e8745c57da491368829c8075043bcdabc, 0x51ccdfc6c3f46adb53f8286be4136b13f076bab6ee06e1d0e8b1627dbba84c7d, 0x15ad960039a5dce370ffe7956d5f98af36d636e9e965393275b7636fc2df520a, 0x2f37fc2c940738b45fc4e8506beb84d421e57931a2b355c824cc5bff0745177b, 0x4f44b286a1f91b7c1ee21806903de475e6921636670ff0557ff1eba0740f3d05, 0x2ead38942adbacb9e373faa95fffdc4e77b6132fb027c97d86996955ddfd4c16, 0x3bb00e78a2af84d5296d53785db7e2acceb89ff93069bdd110d1f796c401c8c8, 0x19bc4d3b3676b3f1451f6f180701e4b80421a8120faad70447a3d2c036dc35e2, 0x4f3e7833c77b6a3a428aa7f9b0410dd89ee64e448999ed3cf6e8267d555238fa, 0x197eed28df8227990d9907ce17ce4f79e253e990da94029bcf25bb8665613aad, 0x33537c506a5e2411f2a4ca08eda69f92288ed8443fab325bb330f7ea5ad43ee8, 0x333a38fde208af945bad34d92ee9a895c8b7f9335ff790dab0328ab2cc4053a2, 0x735bc67e6261c75d8f4a53484d5661f60ec3391016e7e44cc5dd5bc64dd50ec7, 0x31e811532d5fbbfad129e65b67b4559a2e4b15ccc991ec9dd91f829f4d2a63ad, 0x39088f7c4b881ffd471ec2247255dc2099223e444b64e02569592314b871454, 0x11d8c0ff87116cacfb7cba4057b8e95e122c43039c98239f1028ac998a593be, 0x465a35992cbf51eec00df1d967a768872d2620cc7103d666716c7c03f6dc8cd, 0x1d03cf3985d7f7b60c0ba564dff944da928b8a6818dfc8f71b44ede048dbdd70, 0x4e6fa3846f1bf1d94f24556aa0021f56f3c6d3a253ebc62b1ed26cc4dafb19c2, 0x3d8192de688e076a13ec572943efb12ae6a809a3e0487e3e08e4aeea2293b51c, 0x1192365c9ba0ea711b375743a7ab1135fe8b4e88f07f855d5977b04e02cd2830, 0x5cc160bdb852d503cc4a449f993b06f0e755ec9ec9fa0a20e820e0c58bdab2e0, 0x1ec2364bc2e702218db37e03e9d63e14eeebd0887191115573e20c882c5bbd2f, 0x70c9374f040f5feb1ffb8befdf7272e2b9364689c5c3c6629269f746bdfee7b, 0x6db48dcb90a22a0f1ae8364bb0cbf61f32e61bc51293245c27f44058528b487e, 0x5cd487ea9938006f003c8957a62d99353db6fe54f397d15a7baf3c379850e647, 0x35aff5e6294ebb9c42e49052fc65fc2901b2b10b3b3752e1aa8995a728732f67, 0x57870e3027c29f937b271c127792b49f89456c83876c713c640e8b58e754944a, 0x274a0d6f0ebdb826e32d1c60362d44d931864f261598b39b729bf424f431a5b3, 0x511ac7ed9a4ef3d4ca22993a7a94cc7e7cd11620b0924c58c2c868e327d12c42, 0x32f06b077a176d580a601b6b63e41484bbdc5edcf774974a8a5bae10e9e9f8d7, 0x466dfea2117a98a2308319f31481c8e66b8eb7645458bb63fb4e0c66bdbe29ff, 0x473a8b944642651fa986a30f03b1fbf43337cf6db9e76970216aef2e012cb5dd, 0x59d6fc309b0d8f09935db4bae98174049adb949f8929485f22f410257543b4c5, 0x41f677c1e3d1d6ecd913fa4b99723b8dc683a91770fcaf99894b67a21d541a42, 0x363579bdea44f048e3cd84a81efa11e22e34683c0efa9550c958f3a0c36c3a86, 0x2e4ccb113bb9af8d2334c4c3387b5d33d060a9a65a04db8f6e140e593592fb56, 0x24f9cb00a6aef99e10e416d280e7b4f9f4caca4112ef0ea2c2e09b07e2ea7014, 0x40a820c179cf27c348013094b4e3f88ddf1af5dfa571242cf6a766107b949b2f, 0x5b5b25bc0e17bd7eb399882fc8e93ff58cc9bea54db9a877d3b3821272f00769, 0x4d16f8c20abe94ecedbe3d82c0828667e7adf7cdd449168e34e86704576082b1, 0x25600455324eee3caafc44f838c561061a40c7d37fd64e84bacd1b91725c1200, 0xafbc5a8330ba36ced114a1e093a2ae360ab86cdec0e53a653afc32b97adaf1a, 0x553d65f89bf2b9586c9b002d22a7d45c2dfece3791db75429dc4a5eee3dbdca2, 0xc07b9c4b9f5f57450f2558666dc7685b86c0f3b2638274ee828276ddd7c688d, 0x153f84385f88451e74115ad38bf251b5d3dd6d9c08f835059b960824a733ce71, 0xcb854c9f1d43f5ab3411115f89198d18bf826302dba8423434412ad33ab889e, 0x5d7f62c82e32b2d9045abc15b196c69266281a069da196170fd3d4f311d2f9e6, 0x1c5155b6e0be7b429e5daab73f646c15937ffde3fffe1ea99f79a3c73e143dbf, 0x678180dea06d33541a3160485c9c34c7dae9bab49cf932db6758c11378b297c1, 0x14c7edab36187d9b0a8bc3c503e9079a047900001a5dbd90e50ae8b9098c347, 0x82092d0b70255eb6cc2c8d31ed35a1a8e50b51d2d82db6f7e6cef275bce613d, 0x4f41f573ef59feb11690eae772481bdf7ad12526f99550147e951d90f39fe705, 0x1f51796964d4a4aac2ef0d72d4db9f7e425f36f4029f97f3bef2893a7f90506, 0x181b4252ae3c5a1d2ccae90e43f09f95fab2f254105089e5c1903aa5cb1439c4, 0x7109240ff6bf353d913b32cf614e852dd20eca5b9b2c851372a2f72fb9ee4f3d, 0x39d9bb3cddba802e0b3f624e0c0829de11e30e22d5b5aa012444b4fd50ef50c, 0x4fc28789a086bd15b88fd68e086727f26ea0fd591110390e427b9d3a813751f7, 0x28e4958445399285e8311fd285670c6d038cc085177ef0bc40f526a6b2907340, 0x1e2912cf5f5e5d8473ba89dd60cf775e589856d774e76eba45e79d6b4ab00d24, 0x12dd8f346839cc5cc88fbcc83ce6acde3a3753a30865535ba9c018597c0fd967, 0x6ccb15a0f029e0c357f6637a8b7bf955d2d82f145a2d05238f5e259d067eafdc, 0x245c204a7a3ff858a4734b863b06d7fbf735f5e1ab65a91f1c6dc15d4d73e601, 0x6dd85e8643327e880cae405efd94589fe72e877de11fd9904a92eb0e5d827937, 0x2ca9a939aaea60175ede605155b2d17a036b33922ed31097e8606d07cef92d40, 0x23e0cecccb1656965b22dcf60a845501252cfa395afc6c434fe4ed3665cc8f50, 0x5b0e2e1b59912035d2d6318902133c2bfbd179a0e57d1f3814383ab49fa768bf, 0x6bf69f80e5101f87ef276c75a3f1678cf5069edab77767f7a18b3fde797eef30, 0x33f72ae9b10d7d7330705cbfa6d0c087057d4b754ac50a4bf11a63174271a862, 0x17064ebd750484f824351e8b7357e58651367bc0c9cb3b304e9b159447e33371, 0x3224d2eef5463b925d8c5b6822fd75bbc53dbc23c2165e9a584c7c411f8dabf0, 0x53089abd1b5dc65053bb7eb75eaeca15882421b891862205387446ca832bf416, 0x39b782b61ab9e4a746ccee44be96365c3fa9758a78bc3036bb7291d3f168edd9, 0x54b4876a9471e1582cbf808ff6c450acfc52b7d2f2f77cd94a927d579f6efc83, 0x1f23d499fcf418040e3b10d9f7b0f85b773607f80bc601f39c7fc01c0abe47f2, 0x3690840f69297040d40c72e0b4dbfeada179730e54be02bffa873a771f90b05b, 0x4a6ae8239336eb8ee2c858f394ad2addab5e555779bae53346d20b49d1e4f9c2, 0x266a8f642a108ac22de7c9c68c5d869f1bdbf10be830c0db9ddd20190d5a19b9, 0x63e1749b8549f8782b3ba22239ea53d051dc4d163ba50b39b60fc7817bb558da, 0x41abc71de3c62e40a3209d3aeeaa696e257429d86cee524a71a37a64d15833d4, 0x214b3ff40da695278c9ad694d7d252f6546a88cab8dff045c7bae5f3c09f2d4d, 0x5ca689087e9d0e90700c04ca82dda2082e8e2446e81b4fa6272f6ce35d545c67, 0x3b9d3398e0b3b2996777be37fb23f361530f70bca26a627f5fd3f5ab73bcd920, 0x7879db0124394a5e77cbf1f4cbad2fa146c8acda5e5861f5ab7d051878962e, 0x2e89e872369cba8271758a574b066799ab3bc2b770c6c64b90d3c4a351583ad6, 0x51f4ab1e629a65e25bcd11bbf065a20a51cd3d152290f0f431b47968100ab5d6, 0x3f048f772096eeb49772e36c782c644d30457b6f77337db509925ba0fc575506, 0x4d6068ab2427ceba9e07d1d1626a49750e8e0763a62e6d3a2eae0c09fb310381, 0x69a678559d177e1c84885b2b1b4bb7d4429ea6538a94f5cd1e092b497d359daa, 0x3c23523e25a1827d6b071e60c39c26d38e5cef4e5344c15a9e25cbe1bc428984, 0x4ebf85ac892a13b5738742c896fd83844770e76244fa79f3d0a10e5e395b6a6f, 0x1a3f49219e7e1659f1e94ad5fa8e6d61b3cf3159b2466be976b43aa19ae11f28, 0x73ae2c206370e6d6ed035b66e2601e216a18d29245cb3f1f3f452aa49ec49caa, 0x1ca1b48fb880164adcab37c0e606a69d1785cbe0d97397621ad8dd4122c32326, 0x2c208665e7dd7fb45ad66b0af1638ebc5f488c55e8d166027e31e118ce998b90, 0xbbcda7456a37638b5a54d3bbb613047ecb66f41380622edfa5f2748b8c400f0, 0x4d266daadb2fbd022d31263c339e84837465a428802e2f8bdf5d2a203e2656f5, 0x385f0cc77b558bd6c9ed5714c25b5b58c5a36552dadc200d55a4f547be37a3b0, 0x547fcde8011752711a2856d8eaa8bef33b3c4ef2e58159331f59bbc0094e5efa, 0x11c536843c0bbc3fbff11234a35bf0b2296f48915c9df5c35fc80d2c1cdd132c, 0x37c4472f0075800ab6454b0c12ebb4a05c1e8baffb79880e95df22654c495c97, 0x5c9b82295cd2607e280ae0be78b08ea5d3cf2cfc2183e71b09670551fc22414, 0x146537f199ffac7626e824837d1c74a0f9379c2503a0d74b1dfae67e80640a9d, 0x64b70a91582b5979a809c88efaeaee67b93b2e9111f015f40a26e507ee37645e, 0x541ad1e8a6606de535f20be20aea0a39f0daf18f114cdf31cd628ce99ab8f1b6, 0x68074795961baab0516fb3ca4d28873f80bcd35b448abf8bae4e78e844da635e, 0x15778073b4101762175e856de5a6ce16b2cda4df0fdf545074e2059a119c66c2, 0x1e67b82e5a1af0e55d36da3be5d39bd8c3c415ce928c6d69cae3a66af6ee879e, 0x30ffe48e19993ee8a9d5d886527d67e6c9136046b11c3f5f0c60db13558d0ee6, 0x47175408a3d30589fbc7955fdd3abed61b1035a10449722f68cfe32ede0eb8ff, 0x233c19b81ae327c59af05215fd4851feeb7357b37ebe14b3c70ff6b552495de1, 0x61ae1621c873a5f28b7cb3863c00c4da712a9fb538d117ec683dc408133de4b2, 0x78b7a1bc4cd3da8906c4a1df16749669e1fd392001681360b533d2056b0890e, 0x1e864b64b624163acf4ec1969d536d2542fb080af16c88670c5c16039f274165, 0x558090d57a45a2069b008b0254c54056b9843e215a09db88e0b801b4d69be207, 0x63c52877eaae940fb89ac61a2fe9abfeed00deb7b9556bc97ca39238d5dd096d, 0x66cd6ede05fa8f2b0dbb96aa0394212fede62526a31fe4d27f20a17246b860e7, 0x5a5649212d73a5bd90296ba241351aa840b08e8e449c6b8122828f4848e10ae1, 0x1f72ab95dc1adf4f2a8ac98c359abfebb08469ba0cccd925189d3eead0ab8db5, 0x1ee025412b64c3ff1ed23781bce67e73b2c9e465f72e693c12957e6c4f87b9f5, 0x2a2d5cc1ce6d5bea1b666ae6aebd5bc39ceee08f3fc9daaeb141828170a94a40, 0x67ab3de4c5210e2c8a8adaea3013e25421e82a52ae8cb5c2b837d5240b3467b6, 0x24b5ff0149c5337a62c66569a0e6b5f8e4b92ded53937486723d3c158943d87e, 0x3a403188021c1fc40d014c2666bc08605b2497f7620d2a64e5a0c5e8ddcf552a, 0x1c1da5dc7080c7f009c6a57f2d6f9a0d1a46b4d33af38f53b7c5e3fabcd91e90, 0x7271f71db92a3e9acf401daf1e2eb8689500316408480d32db8b00ff93558189, 0x3185b878e15a43569716e69a1e47a01b83ba98b5e72b80558d9ad5d876aefa6, 0xdefdd6db080c28b8fd57ac8d9c22dbd2631908f151ec5043a0e50d8ae47f5c4, 0x613e17c62d6be06aedef87d7c384630b163c753144751c2991cb43b45806eea8, 0x2db779968498b8a3e4b9bba677d6a47350c18433cc50e882971e8ed72db377a0, 0x48fc201881c227679468fe618fc1f05dd73b38c4fa58f0e88f7c8b75a4ee2853, 0x3237c144df22969482c0b1522c30e39bbc14d3c1b7270f28d1691f4cab50bfc1, 0x1c1e919eb89d776321b45f8d01cd443b57e572d0bd3480e9c670e2bff3b49f9e, 0x5bcb2e9ee72bd03c5ba4eafe079cf36ee8d341325fe07622e2f715410bcad1de, 0x1ecfae08966c96673d6ba218bc03cdf389a22cee3a354ab4f2b7bce7059217e, 0x636b70169ee9ad2a7cd157a5c50e88e00ff176cfb39b22ae88cf6850a7b8d764, 0x6f4a10a2aacc9426b6a7a68cbdfde3a301713c9cac28326b8c35abcbfb74bdf8, 0x71bef503000dfe45e83b5e64e499e4d100dcf354a395209b7f7cccb34756fd58, 0x69808a84c7dc5fd4a161a7abaf7f437d9daec5bc625d460aeb9c693a0a02eac5, 0x5587d66f3b4496f0dc6a5e6127adef5ba79b5fc829c9b7bd088c482ae399f042, 0x13f86a9d4071a8bd98deaae6611c72c8b217f9c20505075e4b8cecb2020cdb13, 0x5f0ccbb04d87dacccc7c7220d4b78abc7e699fac35fd25d075bb3d64e6f0e30b, 0x4f251b6a0bb0d830c0869e60de7005ea560415148400f65b1f91198387dbd081, 0x13769395e92327841ada19e02c5eb1406ec63835286259514a86da1504b05fdf, 0x283cd6b0c10398db8b250fc9d0874c7900b5f8f9355518a68cd550e6fb902aab, 0x2ed721bf374024fcfd94fda7de3caa17408bd0602e434fd9545b4fa5a86bb776, 0x27c1851602b7209d75072c6e3f72bf5fab3f7012e66286cc5db02f472aa09185, 0x4a26896aa216f9af93c8d8c2416dc8c8132c9beb346f002325b7ee310a7b8945, 0x5819faeb94aaa56e2d528829b62a8c9dbec95de16ba9a2e50f1631b9aa2532f1, 0x44b37fbbc74356d6c9e772c48a083caf7c50166002e36f511888b4422b21d8d0, 0x2559b8d6e0baa82caf4637030be7c19a2acd178fa96551f6b196ad20d9fe651, 0x365931ab2494fe7c1065a68c0aab7894caad19ebdcbe3b39c76131072c1a30c9, 0x5af9a6dd7c10e60564dcda5c1a3785cfac5d0a79a344bb5d6945263c509f5c88, 0x632504049929edd52b6c8b0e3fb75e72bc28d3d568b132038c7c214b0cdb5b1b, 0x2316b0dae47bce09e87897fa457a0a1e01b475ec01877c98b9e86da0acd5b2cf, 0x22bffce08f17c80e75e058da087fe8babfb3aa4253065213af48b92e49dab48a, 0x35631bd480927b69cc91b15fd1daf8ff04a13b7dc37dacf097abd4a89a217eb3, 0x10e6123f47b0125a2e440bc435e053e36231af01f289abb10e0d02b4e7c9516b, 0x5030e17fc68e032dfbf0384cc95b2fe7961fa71eb215ff8f5ac1397f2ab07897, 0x9f5472bbd41cdc4292562c2e969b7708c812edf8aa16585efb2138b95e8fda4, 0x53236b5557bcbe0e3277db818a712d5bae387925f273e8f68ddaea463d89588a, 0x5ac0e4b32d20c1bc83503b0b603562050f003029b8d08fc1a6060769cde3e5b3, 0x6fc47a0f8b296fe0f47a7f33d918adddf7daab0384aad8be26a5c405d1940ae6, 0xaae56a8d9eeafc951681585ab696725a98806fc8532b2be81ddfdc5d33f9fcd, 0x18811637963ccae286ad4d96bb03fe182770dfaa2de2866c46c496bbf33c868, 0x5121f5b47de382e7e5ff75bddb841c4f261f5669eba7f849bdecb9a97c9c026, 0x376c37298b22db3712f6c2e4d9fb1082fc4bb781e25ddf84a0819adf0fafc9e9, 0x68e9e31065b5b207aa854702661352ff64686ce85b6912ebb0ebf8debb19a18f, 0x3ae31f6f225dacac099dfc8b8c98658ea62e6737fbb51414d3bdd7bf11ce94d0, 0x1d4329bbd887ffb3a04f76507bc08f569031da033686b784bb83257310fabd3, 0x4812e18d1cd745c029160f7c262d0cbd360d34921e78735554021aeff257c30d, 0x261e3c49e3bce36d2398dc13d3f7b941f2a04161df446b5e5e2a58bdabab69bf, 0x4378e92b51b0bcc94f453dd831817f4ebc786fb92e80d2aafa597a5f6b4739c4, 0x6e54fb2d8a754647d7b08d8f99ff8da5892efbccb4f42e0a382282b27136793d, 0x5ae7fd95efa0bb094dcf1968bbf15beeb024771bd5ae4e6b198696069519f85, 0x2f29248f1691415be1249b0437620c18799eb7bbc2a65f7766b851e8686b4b6b, 0xf0e55380d24cf7bbbf3556e4ad6a1a6a52c7334476a01fd3f1b090c68173770, 0x6afb3e6924f7cc14b92fe59e862db41dbfcdcb05d493f207539f8342c99afdd7, 0x403ce5a42a44a1c537a81d8e627afe58c2c1266de89b416ce800da71a743bc0f, 0x62bead7f3b30638f76d2be70bb105af2025b2e038d6e534bdd8330018f84a19c, 0xf73660877a20385668c75d0225d8f889ca779bba8620a7baae8584eca667cc1, 0x25585ac1a7a50ab7e8aa7f12d1beca136a1c6d5983b884987735d515efbd1086, 0x649e6990619662fba4ec7d1008adfcc5c0172118a15f07fb36040d4535eee81d, 0x546f46b2190002370f357d2bbff7b3fae24e9518cb3393239a2d274a4bdfc4f7, 0x4d66bf0f541806e79658e25b4f7e2f7e1917acffc5a6ad1d660cde5261205010, 0x636bf9b517896b0f7d75a31ea0e52ae73cd2e72ca16ecbcf265ac3c5515365d2, 0x24051df4dcded727eff1ecf86f70040ad4890fd753344672cf2b051484cd39b, 0x5ecab83f6e05cb54a8778111ff48a28a75e45b01e77f7e0c61c239853714cb57, 0x48ad6954020c0b6b703a1f42a3032b54516e098993a505e6be5d8691798eeed4, 0x997efc30f402290b16423c1a83357aeb7b6325ac42b1f08c6096016da0c4691, 0x1197ae201982b520d2a3c56b95778fc08525c14ff129764ac2372df46093de12, 0x687e0804d77bb26f3808958c2e17b930b91ae42d3b7326227acf946e55455053, 0x257dc4336c66b360b25e691a7e04d3758d98a5feb3d352b52699b09173483ca7, 0x6713d1b13b87f2392408a2d905bff34387212349ed65ae4aea544468b551c673, 0x621def4c9b868ed330e635d7ddc459df63c56a7229c1b00362bb3741c9fea5b0, 0x4cfe5486af5bdc2c292cc0fde984bbc7e7e40f883e703fe9060e1ba16bf0b14d, 0x19a7b6d5ef7f41c0bc9f2408d5e6b2c84dc4ba22bd2bc691e88bc2e9a62fa740, 0x413857aa9cf3418a9601d7294e3a17c41efb4ace942475677a867753ca3337b5, 0x3d386fa7b813289fa538cc8c9517d81210e9a255f0f6e6f676c28533d5b3fe7b, 0x1ca810405fc5d2c6c32231947057c8907879341f473c47b4c67e6109cedb09c9, 0x4f7e006b7a39ac87aea6fd957adca556df7f75fea269c0aeba5a4922c58b4db1, 0x4c4c6c2492883cf1f44623544e36899b654de66d955c22df766a908716fb2cc9, 0x570b9ca470535b02c9906b8180d630900bd47e531f08b6e575b1dedd91b65afa, 0x576ecf5cc9ab4236da31fb1de4c87fc92232b92695b6c45cb87c2d5456c44e1d, 0x3f7a6b6c242d860bfb17a5419fd194fcf9ec53812afb32f1f5657d94e3b9da47, 0x3928b5be15c866439db94159b03099b1a1ce4cefb6aa3bf72d4eae3a6a00ccb, 0x531e8b4747dbaddf6c005984c0814e60422a8da4d09e7c8f40db0a18bdc89b0a, 0x236829a335aa18e185b4e7ca5c19a0a60100dc528cc70572c9e53a2b88634c5, 0x1d2283b229f1a7686a718b402aa694f15a0bcb59af7fb7fbcdc505ff283e55ba, 0x63ed0f89fec549ae650979b3fa344d0d5f2ff6c5a7f90de1ef1d31a14b375967, 0x740ea947438b893e39702a31ecc374a371e9275061b9c4aed1a06f56d2c5bd2, 0x4c81558df1bc50a79c1cbb3b52914992cdaa4689728c15e3f21a7b4e979bd9d1, 0x659a42dcaf29ecb136f7c791390c340b186908e42ec60572c0e9ce260ffdfd1b, 0x348ca05aa5c936f7eefda178597d18c95acdaf2169bd0c787f3bdc4f1f8af52c, 0x1cfa876c98175d563088cfa8cd85fe66d1d169054d3c68d007fe4984c52cd222, 0xa1c0474e49ccf19c8ada949f87a4031f19937a56023c1da75e9ca4812b87223, 0x2cf470ea1b97287819a9eb41f2cefdf3b2688798977e31da1a4272042156dbd6, 0x66bcaf4817bd581906d4c02d91604492e93fd254e8831bbc5e77df403214e9c7, 0x21f2f86ac7747364bc1587fc44471464c67e554c7c199cd471a9dac47aa756bc, 0x628194ca06f1ab2c7b3a1dd755438cc83fb68b5d02d4999c2c3fddaa3dcada90, 0x4948b9735c759b572070bc150f18fb38ff7dd7f8ca25bc132a5cc7b1d31d44f3, 0x1c6804db4e4b1170a2cdcb39d82ffd5482e2a5bb54c75a0c0aea0815e1278cbb, 0x1652a890ec795a21c059372b3ae840310832044430fccba8b64541d087daa3c0, 0x958146e8fd0d49b6d7aacd2ae5feda9f82597075654333dce9d80395884b6f6, 0x5d6023302b085f7a90c3b58bb415d6508325cd01b0b88a82faf9cde3ab1d9bc0, 0x57f9a41e5db5a7ed94ccc0859943340938cefc39e451f9fd955b26f84ea3d3f1, 0x1c93a8675e7eb4a40d4593f8f66daf4c5e3702ef1b92677f9a319adce6341f8f, 0x45a3f3420811465b467c5ad410a7d5d14f705ec0dc3ba998f23aa485a0a0c028, 0x18263db836d4f37fcb4a588ad46dc3c53ded3216de4db95486c784caeca84a8d, 0x26fd1b54910423faa9fb0161968ee2518272f7595935f415b16270414546fce6, 0x3e13319d42d0beda06ad9b2f095bd31d8dd89e39294bbb22f301e4db5211501d, 0x2018883e6fbe5d11b29e28deb371092ad8fcd36e11b7163b1f79ce4eedba7104, 0x2ce662f7ce27a1242bcfd85b742aee06494c034e6c588edf1af7dd255e0393b5, 0x5a7c4cb548eeb44a1fbba3e9a0e833a3801075eab9d13501167e630ade483f7b, 0x6fccbe703ae8aa69ff70cb73fd34e51242ed2df92b675fe963b32e1f8af9be88, 0x1ca83574e737a1fdf19c4d859c8f4aadbfef5587958c51ed109be709d64eb322, 0x14199f7c94313a8a2c016f78cb468d827857ca3ecd30004861f873d187e073c, 0x45579d7365dc4f5caf3c1ce35f4dfd9d069298c7ddedb1e2ae8081ef5c56aff3, 0x4f8ab5989f9052e9dd56e9aff7e9d0348d2dba9d6175b52751e1a0275d50d83e, 0x3cde5c22754ad3db144c5436333607e09306d45c30022f263d403e0c8c1f5807, 0x25dc3986cbb941c006155d2758a6a0f8b37ae7830f57b79564dd193ac2e9cdab, 0x45bfe7a078b025b44a3449a4d416d88542b0d50fa03aa74c4051d1022c479447, 0x6571c77bbd7233819be676599aec48f4e0e515ffb7e93ceeb2f13f64d441628e, 0x70ce9977377df96094d5b9473fbc622d244803a2e01fc5d4c7fdc6bda7862567, 0x31f9d5d5891164b0e520124bb6839438dff76c0ee0adf3d70cd8d752c8b2ce5, 0x660f9f49eb3b323ae2581fc96b4434d14c655ec05d161b5c9cdeae052dc8090b, 0x53262f2bfaeef9b9aa0b29156d04c8457d4083f115cf9452d9ea66a47b6b8d3b, 0xee45484e165d63d6377d7830decae1c3e3f1fddc3c1c5ec7408938f7571aabb, 0x462397ef1b7435e862f38f037efb6a1a3aacb479edb2449b92f1081035862bc7, 0x3c2d7d0be888c4fb953842b63afc0955395b8f308f8fbce734a788344a3134b3, 0x4f5690985fe14bd92860cb6d08290a405159ae3c4ed0f03cfd680497486a1936, 0x37cadaa534b416737439f0fff5600d872ad48a936edd8ed4e540367917d86d76, 0x1792ee561f94024018d8d146a3ff3119d36a268f1c27064b030e90e59f5d9a88, 0x6e247100731050dfb47ed7ffac86338487864c80a525edd1c953bd01d892cd61, 0x5b4877891c3e301cb137451a922cd8302f9b7b53963f5a99c4de4015d509282b, 0x27f560d395858eae45bbb2db4ea26c2a752a92260516100146860947dae67492, 0x672d92a3068d4a6176aa77d4da4935b5f462d4bc179de6556b3c76aee77288d0, 0x4b90544257caf559e42f567bcec94a8fc3c71484464000060edbc842dd7a5f3, 0x827eb3ade4fc793f33145485076e6b9824be0656bda25483929696730e09ce7, 0x61f8182b53c9fad8b9fead5309af8bebd8d14fa9bb9b477dc5e08b0fb7817834, 0x10c97eb9aff2c85f9ffc2f8e5a31a160aee14083378faa67dbf44eb5d6faecc2, 0xd43196ccb342d1b488ffe2b6288bffacf0e0f2fd5524454ec79fd52ea092438, 0x3e07b7b8e3a5cac27c733aea61a00fb5d32b69ede87714856c3b7cc43eab17fd, 0x50a5c7bd917f44777036e8e77f116687b4284dca33086c98640ccbc70fa2d670, 0xbfa30431d446e2deb9bb299bdb5ccd2bed012c255a5243ddf62d1ad379d1336, 0x1cb23ba024dcd43025b46cc7f22861d4106620aac9cc97d35c5048d676023c32, 0x60b149974785805420564c62faf96daf282558af2e920f3eea9f3968130de7b1, 0x4a9c1c534b67085fb686a701172aeaaca24b3d6177c86c39eea93b8b433fc849, 0x72f4ffe79def76d7c1506eed8b33d6c28c006535b17b90af24d5c594af25038f, 0xfbba936aad39c264bd1ae2a483b60e9348bd227b61f986ee517044ed6bec0fd, 0x2e91206a90473c6ba976b04090e6fcc70a775eac813fe87225ff83bc6f16b0f6, 0x3bb5dbfe1fbe412e686ea33147c156600a4fcdf5a6f86888519ea817b8a0421c, 0xc930203d1759a4295ec5d66570bc57309aabf011bdefe88e4d5e918b405e02e, 0x1a76f258809c5558c70d91028653adef4a0468d3971ef09ee7784fc54b53e055, 0x4c6860ad1c5195c4d3e155691c9cb985e4d25549923876940d9a322f2de94b69, 0x1191cdd123ac3618e1d157274c563391f48b4073a4452bff4c117219bf43722f, 0x526df0eb419a4a8f06f4a58aad1f6d184d4e9c0df3e1426ab7508607249fbbac, 0x365019dc1df4ef820378831c0565091514776f46d91dfdd751246832c3d4966d, 0x3647324ae2f5057c767fab9520862dd284b6d654b0ca1521ecacdb819ad9c13e, 0x62e968e20a8e351d6991ab477830aaccc2912178379ad1c64e200f2d7b3d5204, 0x5ada0616d81f5d8cd3f431f290e494c3924a2a195115bca5ca8932bb5b4cc97d, 0x24ce53943aa05d3020c9ee82a1169b506434d9a8efdf612aedef34a5efeb3f2, 0xbdf325f988278dfa11b28cffe4e6e52bde98aecdaf904f522d85e3e097c0498, 0x1e50ee88131a58a2d44bbabe151976184f523e1095c3266a986e453ace7be73, 0x2cf3001ea96fb9889fe3c5c78d229ab3be2fab7eb2929adad6df6725de3e29b8, 0x731de5f4bf9accc22d17e2d4cdb6ce0fa48f27b91663c02a89472215d866d157, 0x73a0652f2906311c33dd33dbff615d2dc763e976c9ca7e8547ca9b95281c69f, 0x4b4f88d8e70ebe1d6e51c25935b3d46c45325b6057c8de1ab50f8599b59903d8, 0x61243be64c31dab3b31372f979392e85be49b582e022c6b1a0bb9e9118a470aa, 0x2a1f7e5b752a584cbd2fd488037d5e33da3b0cad047ccac2f610a6e6eacdc657, 0xb6b5c6d4a4c4027eb94dec874d5543f1d3cb596fc2b8b1ceddbfcb8c26f0831, 0x69d5eccbfdda2c2cb35f5a5fdb4de03338daa4ed98cab17db2583a484e81469c, 0x3bff352851e65b6a63ba7e999b1a20e730afb3f6bafab67416c15e552376baa5, 0x43bedd79375aa6a27c5cdee247ae46027384bcc65e3ae48ebfabfd94643bb915, 0x6a459610dad5ba7754c31ba68a708b9777a83312e485261ad78c569453ea2e50, 0x45f5009862b3ce05873b288913d9954c088d39cac7733633662b193e0b79f1eb, 0xcc63a7d5ba0215bcc72a95e03110763a525ea203a9c8b01da32aed9b845278, 0x6fa9f7a7e8ec2733e4fd746f03570b3dd12267abe69233f694e30d32daf859e9, 0x2a5e883db601ab1d6ef25ed390f6ab65843b4365e4258bed8499e4ae112c72df, 0x503dbe0e151a5220cbbd9aae9e37ae7902f4588ac1ee3c80e9c44c6b21e848dd, 0x3ba050ae3e9a488059335f4ee3c33855faa95e9cae58e3d92fe53844a79c0872, 0x36115c1874a5e128fb3a09c091e053526ff8162cd2ca9be2b82f7328e9c4c4e5, 0xb8011845cdfe320e84c2cc536bb473b32f370b8b38fd0b891de5698b0d4df0e, 0x45dfef230e502c5a8ddbc239688b1fe63f75f60c64e140ef512ce1e36ce31d8a, 0x646131474690ebf054d5d1f7e83412129e48b81850ed4f44ebdfa5efb246e843, 0x4dd97cb5f4882d45b8c2e2fe4932880e625146be55e2269d6c3f58d4d9a7d622, 0x595e33853b46ca67164c759d3eda53f3ae3dfcf55f86fe9a83d7ccd75386b5e4, 0x3b768e18986f3c114785a9d2f5ab54d5314cce4527c55ba42ee01275d1a6ec14, 0x6cb367e8bdafae9fd5734968974100a0baddf77b74507b83b3507031ebc58069, 0x625ba5a70f28b6832db69a2b24fdf13cab9730da2df301158299d3511ea25bb5, 0x652224874e96dcd3ad52030ed6c25949ca5942b6956cfcbc0dda3f0e027992f, 0x3ee2b2a5b793f4511ddc24d4938421ebebde650fc5bc70f46b64ca9aa55d05a7, 0x221e6c3916e8c00897b5296b0236d769aebb289bb4ad8a2df0dbe1c6e3d3c241, 0x24de606c55799fe3f729ede3d3c84e0029f5834b4bc63a1b44ce0f11e075582f, 0x2e2d007aceeddbc542c542fd4675012bc34896fe4d0ebbedb00c7c683f82317c, 0x5cc82f55dac45bc50455a1dc578c3c7394fc0a2e91e86075114cbbd263796cb9, 0xde55acc2aabd339d7a72fc338a846cb451bcc17ee752f056bc0b87a760b801f, 0x1f49e26b566460c4a13f0971004a56de6149a73f778ee38618ff3425d08108b9, 0x585bbc6d1c644a60c82e8cf150d9ba8946c8e419ac7eed925a61852c4dcafce, 0x6aa1590384b5ba7ee4e729bf3d4cc43f0ca4b84b1caa1135828860dd908fd0bf, 0x38e8797ffc1066f6deda9f861bca3e1262bb06b5c4de64aa9112a0995a445880, 0x66fb3ded3fb8710e4b105b90f230a48aca0e008c74bfc19e2e333b0a10a2d9af, 0x4bfce1e4cabb9c9bede60865945472f557d0a97625aae9bcefb5b2504c9988ba, 0x6f0efbcd1401283097c621cebc344923652b341e05523ec49986b26648867da9, 0xedfb4413b0ec4543c0a31b39d3361d3320900cedcc34cb6f31833f2c1a9ea9a, 0x65e275533f4dfe68b1e232807fd74c2aa366044fd7b6faa2d9fbd55c39bba1f7, 0x36c11972be929ff25baf9cf2e2c2495651558c2c6edae160c2bc7d85a09c70c4, 0x28f3526978d4d806acdf8f7efb58d2af1b43d089d49186ea3ef07229415e17ba, 0x46306a51da817839f2884af13cb400824790af53f7d7d8583306a011d9cd8617, 0x158a82aed353d380b238b73a31e9f3356e8467260afff42a62e201b77b77fb56, 0x91b3e32e0fc2c11cdcdfbeec2b6a401ac10b51ad1bf07885bcdd61672e03b4e, 0x4bb538a72e7393c8474c9ad59961f887e98bce1909fc07ea2542ddb8564eefe2, 0x3a90834f86b4d92f2b6ae0d0e9599012a87fbb2563bbce20819c478363250534, 0x5bbf786332dcc67774c221b8f4d1f60dd0b9ca29c7b14aed02f7534fee27f5dc, 0x310034deaabb88c4e8e4000e32840c9c9876fd4e46ba7a53083940f3a7a883fd, 0x3d4a6f594b355b2bf3a5a2dcd9f4c7ed9920c6548b5dcb47161c141c55f56566, 0x2a9a6ef840d4375c40ecaa2571acbb71dc5d82a516243883bff9fc48b6584fa0, 0x6b88684f5e76b60ce6735f86faa1fa9a0bf897b4d06d4a6495170cca95dc197e, 0x41f8287cdd13b659d39ccd131b2c8361c2aecaf60b2474c5820ad2c30700d277, 0x1225733385c0cca785cad5970a0e24acd096202435bbe90f2380f1df6076c3c7, 0x18ddfe59e1dcfc78ee4ffb190963b40c51e781f3954c9a8b12950d36161e19cf, 0x1dd9858acc9ca3b4f50627712febc3f4bc4b84600adf615cf4bf558d2042aa2a, 0x670347749f46b088b48b68c7cc37114c21691453e4bfd06592c21b986b9f90f2, 0x39cb1176feae39853259db16fd5fb2803d6ea8605e4bada466df0b7272e01d33, 0x3d93e33a161d52962352da5d218cc1e92b39e487f88f6a1d8ebbb8d68016c90b, 0x407bcf9f6f5aeeed03b4fb65a9f2ee7998e5bc7e2854f90a9c9c1dae5f1a292c, 0x1c4ff00128508c3eaca23d4f0add5f1aef80100325328527b6a69a9c8d111e97, 0x5d2b984fd0357e539defbc8f18eafbc2e842b77fa16b4c1298fc30900458252d, 0xb442e065f9533c357b274385a01d763ca5ed63642677e029fa454bb1dbf3ebb, 0x431036e606574e007588c00ca45158ce9c1064c578a5df732a0d7e03aef4cee, 0x3fdd2b4b425e7ba528eed0227254bc85d286701cd921e76f8dd0986666904800, 0x1a86533f59dd3b1815f820d1ffff483e0fa80d9c2b45692c0493ba6d89552908, 0xbcce0482b346bec34e1eef6b95a76a06b0d6269e17f2f9b2c02be9164fe9c22, 0x575a0cff91b06f122aadfc52fd86de58620131b0635767c1506f72f23b739b9f, 0x61eb88610dfee53db695aca96a09ba2024cfb0af3e45ee35b15a00f3ada190d8, 0x5238ccce00e6e96daedfa91394ef26a3148c42d2c4ed408e1435400d37e5caa3, 0x1c27c9a0edf77db05a8a347d1052ed50ff1d2fa817d9b144f888c0e6f55c4efd, 0x64fae493bffa26cefb96f55a70748ff74f498885c2ad4d24ccd12b60cf6130c7, 0x2c7dca552ca0b58c7710ccd2def655f646e99dd7f9ab59a40fbf949b528d922e, 0x2338dedf3cad98d236be9993d6f148b551c1abb44eecc707f5213d7404d466d1, 0x6dd8a37cd5921ed81776c6db2d559e9563e90500389ebeb2d5e1a78ab1e92dd, 0x5a4a1c0da2fca52eb2c42990177c8e5b106b3c94e7cfb31e220ce507a5c97bd6, 0x404e65c79d9b8ab0444811a76ce8dd37d3adca347daf4551915c5443c2f44d42, 0x5dfc91ba2ed32dfb21dbc8ed77cfd08bb7bfcd65765de3573ce2239a830c0d67, 0x70f6999f541d7751cb99c627593217b97368b3cbf6a30466224a7fd7c7d62a96, 0x6e2835856e8c9577e98365469552ee7be698c142aaebe0e5058afc5394dd386c, 0x606bb5c86aada5b1d8c29d5af2ef45e8114017ea5d0cd1e0ce23ef48922bb064, 0x512e32af7c24e94607279b4ff42b2451b2493493e36089e1a666eae81870b3a8, 0x64d958313e750034ffaed7c1a3869127fa737589b1f464d775b6251f573557dd, 0x17743e2ed17b0009c11298e2da8353a37591106050ab6ed7129ad9d4e8c5f23c, 0x67e001e41cafe4b0aefbf9b4618f0d97367605236021a3f55ab1702374dfb734, 0x71b8584c83a0b5274dd06fe7c08c6c7630d247e4f1700b46fd96d86448932f9e, 0xedc04fb1c5188b7fd393b5d9d3193cc09863f81ff60110bc8567b7c5d857920, 0x2ee49e0bd75126f46ddb97a554d24b6d7939c5d00a50f2b8e6c26a5fb0dbba53, 0xa172ee3949c777bb9d23e40223225500a39b29bb8bb531a39900f77149f657f, 0x6dfdf8c4ef46a23310a2fa8f8ea01bea7a5fe29b50258294ca1e5870d5b2cf4f, 0x47c7c1ae0d89e65a529887f42f769d41362650240155c9de8b53cb4095d2cae, 0x5f4cd6454a410a2caf6fa583f2a0b3eedfc9a4473dbc74a8ecd283ce80d4a21a, 0x378b4cb79a4fe0aaa61fe5b249dc66a55d5fa75ae75831a71a8af3826f5abe7d, 0x1c21245c8aade16eb345e7aafceffed681d211cd7efe6750495231372c1f98da, 0x3e4283dd4553966988bd7f23632377d4602fe288f8f4e955929d358563f7239a, 0x24cba2396aba9b5e557a84e9cbaf20cf771436f5e720ca657b57a9f37b939ef0, 0x22bde997043972529cf5a3872f84fbc6c7b94fd7f76eafdc445573f2bd5abb82, 0x15ecbb479221b0e3ed9f6124c87b64738a1afd21b23c90b8d2d49548450e2362, 0x585cc70bc19a26b53ad8618c5642bee8ef85a30c648c25ceb620c557bad01455, 0x197523bde9176009612d6fadc0b8841b92f688b85527621cd40898079ddee190, 0x3c1c7924d732aad69e62218112ad4f09b1168607ada74f8309ef953b3a7aa12d, 0x3b26ef3344b722b8ae3e6fcfcba63d3758da6db75c84fbaf2cf1a52466ce4278, 0xf15bcbda70c67ce83552b81e86056574b361610a7c696f763066ec3af78f50f, 0x6d7a20c96225a58009b008e69dcc7a2bb560f8f2b844b22980519a988156f5c2, 0x581e624b58d19f1f0f6367acbbd5d5f21f75c78c274c5581cd38a0f22685ca1b, 0x58fce525098a55c4e0f8a41a5f5b00b9afecfa21576cb6e04535f98de1d542a4, 0x15f3fc49acef97b78bc7aa4355b7fa451a017ecdfa48e2c7dee847bc73d5a0f1, 0x17c23302fd4ebbd765aed3c5065e95bbf63581562d504379248f231264b72f9b, 0x66f1ada0c4bb9be8b658572f2ff878385ab2e681c1022cd096362167c188fbec, 0x68cdfb8d291bf87637b8a7538fb364c0923b5408a028ceb97b0b6cf32fd091ab, 0x7225e97f1f49c2bc6f726049800855ed34af30c992a3a9ec8f9c0a42b3998559, 0x12701631c0998062cd9d0934bb5bb576501da3a6449dab91f541f943fe2dd4c7, 0x19b35e25306368e3f2e91b567784be03e0654fd01654f97e2982608336c15f27, 0x636205fed26dcf1f019f8be90111100d7bb04c39d53c2119ae4b84ac91e90c17, 0x5ffd98a2d522f7f94c45d30e1af160ee1ee4685c375605b355e1562ba215c367, 0x3d4c52069d3786c08368497f9f6f3db12526d88724f1aa62f497084783de1fa1, 0x411245ceffcdb86787c7eb6b2b9baa331f97dd58c1c85c715c000e21d50a50f6, 0x718074c40477bfaffb2e64bba22a6dedd7fc47e52d0dfa72f0e97a5c1fd9204a, 0x6b26c1d9da2d70e8b33e8b1f89ecee9a9fbc2d5ab1672ff6dd2b2f81a67697d5, 0x45bf75fbee86da9af63b479678595de0d77af428d30f254c0358a86486da0795, 0x1f8d47ea78c7bc01f77a0ed134bb093e603918f9e62fda607dfdea69160c63ea, 0x34d08e2b6cb252ede50970db2199745b0d191f5d6e429eff164a3949cc2a2131, 0xd56aac038fd39e53e597fa983e25a0914eac1a828417249ddacc6c96fb34001, 0x4478c8c81b184c57b609fc4e17408c85baf4d0f2ce807908cb43839951d08af8, 0x306baab61af41196273718a15d66656bc41230de59fdaf9e03d4b5eb641157d9, 0x596e2252c10197e1712d4417de9168dcfcc6cdfd626f9b1acb620b0962819f29, 0x70ce1f28e2dbc6e02b2b312bbbe3e20fbd36e009986f910598b80f7f0de466bd, 0x509ff50bbda4895ac1a50b62242a7b199c0e202d5ab504c122b71fc3619ee1f1, 0x68d6949383b299267699c627d643cd98456c450c9e360ac6a185d224502536f0, 0x4d1fbbbe3c7b10617b2e4e6090699b4e48c1bf7eb6780ceb07fbdc78ba6b9db2, 0x45fdbd3681e29bc30e382682822e19fd513dea1747df2b418405e9a257d5c02, 0x18ca4411e275a28100b8127281db4d0d43702446bb9f433cd4c72b3ebacd2cf2, 0x4751f6862d73f69af222b32709dedce87b5b56565723575b4c8273eaf4d3a9ac, 0x2670351b5d53fd4ec5717895992068e5c2a9aee870b27e66c678bf62788b67ed, 0x367f95828849d645ba81df41a844eb6e08702287f3193d1b2c7d4c7a1dab4b0e, 0x6df1e04a839d7620934d66d8d5850ab494621a01eb46ab02b5ff7ee593f45502, 0x42877e565c45757fa557cc60d8a783cbf5eba7a8a2369061ccfd57ec14a4ca23, 0xf3dec8f0135d85a44815aeed56ea0b0daea132909e39aa9d0e10d4146384fbb, 0x4eef3580fcf63df3f69a6a547fa278cca5ab6631fde2d7d6557c055e5bf8503f, 0x5e6ca57438be53e51e361cc61c0f25aa0e0b77beb20c91a1844310e5c3bf7eb5, 0x5a5150432b0c113b134e9b8db125976f254b8f3575651cc2060d89ba7b10fd58, 0x5fcb325d58360e85b1e4a7acebebbe0418705aebd40e83db9eb5cf37d020bad5, 0xea4b238307d1a47a29565fc722777ac4927fa8e3f245bba053998fb636cd477, 0xd021645fab664d305ffee198946efbf7e872d6a3714cbd67157d980f45f77ce, 0x46a4ce8c86342bf526889547e44bf4ad95393154453aeae938cce655ca0176e4, 0x63a911399bc10d0c37d025634b17eefba6e1dca88ab8300967cd559987998f4c, 0x240fc6e995d4f6e8d922fab1fef38d4ef9b310091d37eda3a398d9af5645e520, 0x250e3ebcd5b214326966d1cec9fcf968b40f2bbc5c050016a27e852561ce88f1, 0x3ae1a31f367229b1fe1a459dfb2a763b2f113918fd2c1f5f86603858e58561cd, 0x2216c0527e6d9e8b1f8853634606cbbeca54575818f956dedb624022fda7b75f, 0x6443d048652a6765523995d3acafe20c5e6f05d0e619166f5cd50c774396e41c, 0x1e3cc52f99fbb4f81f3064fb3f2c862951ae0b86812ed5c111cbb72d2fab453b, 0x23c9e1757ed018c413658953f06ec76b9c2bb63d0cbb11bb8bdd637a6a480a24, 0x68e8807739eb7eebd409df7903c25d6d83b0e8b9210dfd81b0df41dec44d05db, 0x6c80ed7038f5c2c1de298ce5423be3d09c5c79f0758554b7793f8bfd4786aa06, 0x1cc4f7e17c2c0598cbb5e7207a6512745f61f6e9ca021f61f37e45436437d03a, 0x405045ef147fd87873e30e36d85b9dd7ce1d50f2acb729ceb846ca2a8c4bd743, 0x60ef0c379a233f5f5bcf7fe560f04d5d717d882e7e5b8e835814d1c6e9284974, 0x8ffe65e5805fba7618699b136af4cc6abcf428cc4344570c84a7ccf10659df7, 0x443d12933ddfe3bb7f74027201bd535d6b014c318ef2ed13aebfa8a243f5b4c0, 0x4b85c2b6816dc304204cce3f32ea3921ee08dade7cdd2819d0f6d9ef2595b849, 0x2da2c766703a36b157a01b68868a36fe4f0999d88d0ba3a4a89a44462958898a, 0x31f7c6a81e399cfbe21a8c45dbf966c79fe26bb27157364a80da62801d15067e, 0x15c7ea2d2a99a84a39a7598f33e15aff79fce05c658a4e450ce725b09df91d4b, 0x3767dfbe2305d18338744a7f1f90a826ea3c5f2217213f2727c170deda0dfdb5, 0x3af609e4e93a96cf0c154fd563fc8521ca4c0d50cbec1c8ed75082d3b945851d, 0x46964d96d6f94027b8b47e735f36c60829e192206bb36e02163519e49dbdd437, 0x32caab3154af442818b4c7f2c7201b32ee77bb26e46beaaba83ba3fc6f333a9, 0x50380afb379213780255984007a6d619ebfc18789f485d45fdec349e5ed4412d, 0x674bc43eb6a67c98b8d5eb0adffaa11e6cd9c3ad07024cefb38cb511d830da33, 0x2506012f1a56251e0d8716d7d203a345238e9a59a5fc5123826e02dfca97b1b4, 0x5be46fbf3a26261a2f4f701f506b986034b4c3379a4dfa353079e2ef532ea545, 0x40b62c3a97c7224f4517640674fc6745bc41491f8cf796e341c19b8f95b1ca6a, 0x343062fe011f3e1ca159a34f95f073896383ae7326126ba8d4c7b7ebd8997d66, 0x53c03d23187b4b8d1739e172ffb18feb8c91dd10b70c1ee40e42e5fbe21d60ba, 0x6f0a674b33d3f161b180537b124e073f92c782079cf1eea998731b05469bae7d, 0x1b97fb813bc33a1c6164a53f52554efab355b5ade6252276788f3cd2d5ef5c32, 0x3ddd01f96c21f0e8c3ab56eb9292eb76860cba125a809fd7c66b9303de7b5b5c, 0x72ecff9ec32b88eeccf5c7c1af7ae5491a113e2ba32bb4533c8933b787d5401c, 0x244ae49d30ad851100b09fd8c0c438ad601c59b6e6391dd80ec06e0ac6e2e762, 0x136096a5857a0953886a0f713a3ca89284899c9c1bcb9aef12ef4ea5927db9d3, 0x1f5761a88b3e707d4a6ac625956866c21fd6037b06e6e8d68ffc34a5c1ef97ff, 0x2f7679c2f033709ab5a93530c834b1e7fff01638d6ac8fb289ffef7b560b5271, 0x45881c8ab0f284c6193c201d737d21cb9751c96fb60d3a12d91a7abf56fcb6f7, 0x450a0120425f45b4c73553d781ea9d3f7650302a2749d5164b7eb347a5346790, 0x512c2d38bc4867463ac851fa0dbc6c48286324ed4739df7a38475fb0604d6e2b, 0x4ac4f251de9fe7a551915db1686e8b5000ec7de13da9bc1a174e2dcd67364dfa, 0x673983342c4e96eb9c0208db303554c98042a6f447af45b49f49c43df46574a0, 0x3bcb9435bbe28e4e38c506c935bb45bee530f381d6f138e5d19a5be7c081fe85, 0x3b4ddbf6fc5a7569370c3f7bc20f45b7f8082a9db03394cd9e3bcd79d6a3b1f1, 0x2c6c792899360b8a29c22addccbb6ddb853fb08235b873cf5c890d50be8da0c6, 0x5423c0d82356bba2107c9f956e86cd61754d20aa106e92b25def9b9d21c4b0ea, 0x1ece8966992abef52c46b85f0a0122135aa99a34b2b78cae01c06a513c7c9ccf, 0x60e6c4874e82ff63d7a4627d253b63db6613de3be2aaba39c6761992d80060a0, 0x2be095b9fc0592a17358dd260c829108b70e2e71b75665d46169961f5e095fd0, 0x72e129bcfb9e71ef3380c58bc177214f8b74b32542bfacb40e488372c0bbffe, 0x1afce4ad5e83095d156688d8e6029aa19b01057513832d29471ebc439b78772c, 0x4555ff499b18c0d6deb16e4a2a64d198bda0ae9c2a3c42b27cf13663d38808a6, 0xc7851a52a45631c2f1e3fd50352b634c97c305d332d11028f7d1f1962d6e45d, 0x2a80f8ae806619b47f2aa4a82fd78cdb78256663f13bda951aaa99f5dc3a30bc, 0xf4d0587a39f270f1f6f924319bed34bfbb946900616f84373f918b165275630, 0x332fee7d549b15fd40bf9989cc615548705f4ca907d9f261c16b32eef5723cb4, 0x62f9b04120a886d530824e40a49bc09f3572c515b8eebb60ccfdaefec34de8b1, 0x371d1f4194c331fb9a252968bfda467041150062475e1d9a360aa909432c1d71, 0x503a4eaeb4c6f62a84830830c62a1d75bd3ecc02dd4409512cacc404e1102681, 0x8bb90c64e211b53ebc783e165d50b40308fac8917cf5e5312b34d6b37028b7a, 0x3bd94f9dcb7930a6f14127bbcd4fdad86369f3f7a5e6323bfaf31c187e189235, 0x582500c85a84020833f810a535453564d5d3a2665a428c8c21642f4e624cee74, 0x15a666c78769f33aca0b855e42932a137b8e4f94e6a9a271bd918beee89edeea, 0x32b5186527bbe756e9bafb5eabe8a4c6f24b18403040e827cccedbaef21b722c, 0x4334bcdaccb271387bc092fc05aac1abe63d01d79983b439c58b17b62e358c58, 0x44e936012cf156e815a014950d1d1022dd816af6054fadfce02021ed3371f37d, 0x12d7cb03e0ac8228c38e9b0279da776efe0393b1020520696de68bd5a2878b3, 0x3bc7fa2df7305cdff29adcfc8c5667f50272af8bcc17e15ff83537d613b2e4bc, 0x73e6e3b019f1fe3ffdb66896a873f044fea7aadb14413926fe003085544f4c31, 0x93bb2e21024582e66d94c255bebf1cca13c9032f1aa81e2362b318f1f4e37a5],
    M = [0x1b80835caedba7c4e2eeceb32bea87f6069405d44cadfebc7b379da203bb4341, 0x1bc153a87e052f459d1f36e746b6de38ffd2b90c5a5f7b5139d535d532fb759c, 0x194449f1aedb1f863788cdaf80ded0eb79e2b8f2c4d86d7f8faa28924e350dff, 0x2df8b603025340e66ada353318575c7e01bafeebaa707bafee86207e74ca1267, 0x1337d9056ecc14d5a8eddb39381746face1d9218a8737b7e4636776e78772777, 0x499cadbab5b6f8443a7323fb404818be892e9cf3dc6e8bbe3a66662d31daa40d, 0x3c32fcfcbffeacc035de1d71e553d448ef67ef93ecc8d394e7bdd0782c3267bb, 0x458f4f979122b9089c752c19a6e3925296706b17d06a1c71f56feb3c87210b91, 0x63718b96a6d9f24de99d17ccee4dae8c39b29063f8d6f8ea218e69be149a79da, 0x56a3e17c2d405ade674a438b5b0998f9cf7c1bf4bc6bc977ebb81197b9be2136, 0x168317135046d79201f617d5ed0d3b28588ffab2e42d08e90d482a4acc59b9ce, 0x6acb91c9e9689c58da0d458a86570ca1bfa6ae6455ea52884c820c9b1ff4b3e3, 0x33f22733587882c64ce5de312449853c112a49142661810401614e5626f1e6c4, 0x1ddcef0e4aaf51ae8a77fd7530dbf585fbaf38db7bc3452deaeecd19605f4ad1, 0x4d9487f90a18532cb863b801a957d7a4b51a67d03f8f3f42a985e4d794ec3957, 0x51b58f5e13cc07ae0f36ede45bb29c78e7d4caaf2be4e73530257a83138f06a0, 0x2dd73594ae4cadc3a098302ad8308ae5cc2c90c63e1f922b6f15bd1e7f8a7726, 0x37fbe9532a0b69fddb5ce76c60cf374d5f3b50933f276f4b82b8fe06e415c014, 0x1d86c1cc0e886fa30c262299d38a701932d2d4c76910fb4ec560e7bed470e150, 0x55ac50ce3da3bb34124255c09120f93c69e6e6ac254e05c457e715481291d6ff, 0x45eefcaa0687549f866af205c35245c08aa1dead5366bb08e859b88ff018a737, 0x357f5dd9080769e66525a2895e481a24bff03b263e1aeb8fdf9cd5508b3eca43, 0x1fc2e7b1c5cd697bf15a5dc14ffcad5570845ff1e3047536426526463570a086, 0x2457e204f978a5bf6e5423e1351fc26ce2a1755eeb505bde0862840b55c438d5, 0x4ea4e08272a4f5abc2d80d15a56490556dc7f97676eac4bec7a300c59996fb72, 0x5915c56ac0b8151ab1c285e1724c0c1ef9825d6f6ae3805ff29608311001ff66, 0x71d438410f192eb5c53dd62e4de7a0b47f86e708e08ba86cf6cd10cdcc470787, 0x3f951793b164c44955bde0c30ef87d0efb04c4477da39ffc86a0991922d28f61, 0x5ce22a7d9df1ea57a2647dc1642d38d15defc18714a8cb67c44926842c0e519, 0x6ca59fb74d8d7d05341762e07d71dd3d08e9f2fc618cedb2c30cb541c66a58db, 0x43a748be04458e49db8f5facef1af19026a994a75eb36959c6784311b49ac91c, 0x2c599efafa92b0dfb3cbe184eb0c40edcd0c9fdf28666706872f3db268bd2b07, 0x32d60678c34b55792e3c6c6eee7323ea0b138319409c2dc7b330d592ea40083f, 0xa0032a50bd867a12dc6bc455848c23188573e6bf0009d4b14c9e7a7a36cf3ef, 0x63cb91c38f2fb97e3899e1c07a184bf97e5486ea0ab9bb4161435adc5e64c524, 0x51f59aec31a67afbb8a4c0ca0842513b8ba97b444c330bb52d9c13c2fd37785b, 0x532f6c8e9d13537b7ad50514145df16840a2b1588cb58e8e956c885df8c8fd45, 0x2767a042985f9fb45f508a61e9e5acbc691a1879c6bbeecb1441ec80ed9e1dfd, 0x9ba54f5b483f6db4e6e299dcd07b4de7a4ef3cb495a5c98144cf18b3d052986, 0x339cc4115aafd2fe3e98fc5ce64e2840c7f4d723cbfe480833a359a0a04284c5, 0x664f2ff4e4383defbb0781e04ba1a3d4d9e8255c6682f5ad36b75e59ed59746c, 0x2a02b26eec9e0cc23e2104cb8ca68ca6753711de87d1e735efab605fc3404c08, 0xce5e5bf3405051e699efc45c03898d661022d8f473c452782f4db0e1cd874ec, 0x2372688d9e18aae5fbeec6f5100e0ab090b15651832a0fddf3c5a83f67168053, 0xd8e0ca6d7e629a4d2790616e9e59dfd6f3e36cff8fd37465f29cc656bd075ef, 0x10f7200effa86c79ac4331a753f6d1e4515d07851b44d98f2f3d7c286908baca, 0x4c864651851d42aa01376cd45952b45d37b4e22ea6417d56fdc013aeb55b9f7d, 0x61d5de1742394043eb85c63fccacc9f3fb2dbe0b68c1bd3ff4fe964a8fc3a7a4, 0x65923c6abcbed430ac98b652706f43f4e3203de48dd2508cf68de92a15dad515, 0x4d1a7e4eb7daa673bb18c7b3ba5618efb3f978e8434daa8507c88592758af07e, 0x6bf56234644c56000eda1146bede0456858a3b71b99c084f2b1d767eb5e2bd81, 0x6523f522753e727a302ec9ac3be4aad35662bb6632711e9dcfa4d7cd2a686587, 0x7304d6cf9e0c44a4ed77d1c540aac163a627688a6f54e7b2e35d784233d04c56, 0x1564d8dfea3b63fe8c8b7b37c1e8356fa587ce7f4b6bebae81920c4924e6bbce, 0x3b21c6bbdb2ec5a76f9261f1cf6fe301a1d3193ee6f4d9c6be9888d110d1f100, 0x2a29aaf99ec681b129107b3637fe0a7f5617652f316ca1a5ced596322a5693cf, 0x5f8a8e911310768789878e814a65455ad80d7e7f651e497ca4e8562f738ece8f, 0x4f9b8658cca9380695db00bbcd1aa91df473752f58a42bfb1f5170d67f52cfe, 0x655f95f8b0be98241070bd62146bde1b3a2f4156d76a4f55b37e78fa469c4c1f, 0x384761073be092dfcfd3cbfa1cc2e4a5958259ff0dff0093ebc48384b4f5491d, 0x33ceaf3745b861012c217e16ec724c712e820f609b0dbee2a76cb464b492338f, 0x5d6591467de5a9dfe090c481e02b84e4285b82b465522ba5bae4854971b29fac, 0xf3217651d628121cae376eda74d5e518d5e7dec8ebecf5da75f6f98562ce8f7, 0x15c3e18fa4af134dc49d256796fce6e8b4ab14d9050e1f60f63bc086cb358226, 0x3681b4f71c176e14e3bd5410c833579125f9b8e83e9059155255799aabb1066e, 0x57ef2dd241acf98fe0c6e52325ada93d40a9d3694e244797c23bb940b2b9f8c7, 0x18647cb527886268d490c6754ea61990ec74353a132ca6968eb6a9801926a5fc, 0x66c8174bc8f3f89ce162412335166831f26d735f85ebf4bf03cb9cfde1683655, 0x5f72bfeb43d16f87164bd47b11b223fca66e4a04ad8012573650669bd921e3b2, 0x68b7bd2f4a6729d8b3e680741c5e0b770c7e00e6d4562b5e692c77bc25743d32, 0x2daa30b2e3468df121ec786f9f4dd972176b701cc448044495b1559ef0c84bc9, 0x51837de9e60fbca06a0eb208c2efaeb6b605c66be74f498dbcbaf91ff505ff78, 0x4a9732d474af4b16caef2ccb50f978728978113eb79567fcba5532e779cb69ac, 0x560f71613c308cca7f28b521eeb826dfdbc85a4c1227c05a1e73f5f176921ff6, 0x98a59ad42b9c981f61f6dd401c2db31560aaccea4ff7d8cd12f762bafa46809, 0x29f196bb3297872c2e78cb1e093681b2677f04759ef6ce3a2346bb82defb5085, 0x4229e55591e22f878c36291e33fa459b4ec51aa50f0dbcd3e08940084ee1832a, 0x2980e49fa892162c37c5c01a882ad81bea124b251df1d275dd2ab39e8a133e40, 0x222956d8f6650a2d9a472eacbc49f974f7f23c3db154debb57427c6f57281e4a, 0x149f40c7ded59f23eace35a30a77f6f0fc0dc7dba1e16e73a6382ed17468bff7, 0x10e58c237672fb01c3f8bfb3c5769e28696e81ebd256be21e7af0e280a0f2629, 0x165327b116c823fb50578c3a1246a99d2fd48e6bf8e0da7fb97733d98bd67e3, 0x2d26b7f313adb4fb447c7ce565082c49127dafdf2d61d3950b3a528023401b31, 0x68068d90e33aaa9d687c72587cf84dc6051e55150fe041ea1fc2e1250380dda7, 0x259cbc5218dcdb854e619c19aecaa3abfa5e4e4543a523dde97ac7a444856855, 0x45c4dc2d576077d3efc7b21c208391bfa608333ccab07310a6e6ccbc3be4af89, 0x17dbc6e3eccc4661d20f91d8cdd1950cb680cf8730421be0d8ec4b7d66bfd41f, 0x4d4f73c6fccd2e1814f8e533a031dde4d53358bcf4ea69452b8ff17406add6bb, 0x5ec984d8aa575c537acbf17214db51dce42254bb92820ca09cf9112f753c5b5f, 0x3e3d348f1e034609eca5cd61f0e831b87ddfa84e51e639d87c659226409d9cfa, 0x64381459af6e590d19198deb342d4adc85fbe4310466042565be2a94e97afe01, 0x9ebb668f1120c210c11afc95d61b5bb36be6ea99a11e806b7862071246d3b14, 0x23cf5f4268667d31d2dd994d69d31ab764c0044a0d199c9c404de8ab8b964d6c, 0x3424218088de55b99ed04a57560be554586c31edd91b15925194587c4fd5f54, 0x4ee01f4a83580077fe5d2d09206c82398a4c7ed87885f9977f231adcf7b0b505, 0x422fb9a2dac91b8798e14e98b02d4e3bf2669d69df7a093f7e139fbb39376416, 0x62a2dc616c6c8763802388c17217b89055c3053658bdfeda91b5a485a1a21ec6, 0x33a7b6d5e4235ff83d44e8d099e1691dc5e9b5d6967ed6dbd90bbc74cfdbc32a, 0x3f0687487c65c3e05ad5e713843dcb0603a1ad4734bc50ed22f55935dcf7e69, 0x629d71cb934294915d9d392ee522f97f9057583bc9ebc602cf77933b3f3469ac, 0x67e9a0a4cfd3e86ef52cb645e514b3479b50d01e54815e751e79b39137831b92, 0x625f3b5d3eba740afd80d9f8bc38261e0be3a6efbdc81837f8a4e2d7558f5dfb, 0x22ddfa62829bfcf841d097ecd49ecaf9d6f85045f345bb9bbe979406e7c0f4f6, 0x519b99978554868e786eecffeb213048c3bfaae80d24b6c994daddd87c1c3242, 0xebab9daaa2a898bf4428dd2b95bcf97ecbd289c54d20adb304f01bb6cc26b1, 0x2b9aa2db2f027a552735827c096f06c150a9eeccc0f6af593604d1282c80c2fc, 0x19484f3e0602d33bd2d7f066a33551ecdbfe89ef2a5145cd500f5fc1edf88738, 0x33472e378b1eb811a20181b4a458f5c2a97adc6b3290e2fe83dccc3624bec2cf, 0x61b8d4d3945bea4d427da1d5a99a11da1cf77ad73bc182537d0e090208970a2e, 0x1392b723d0c8d9bf48dd60df8a7f9b209bab0b9be2cf00e1c7bc7817a95dade, 0x573d68c68a9e69894b9b0642916e29904a122f08d97c7b3a18fd30a5eada148d, 0x6720d36d41aa5a5f7b42a8291cf4903e6b83c771d398cff8346ba4fc34c76f8b, 0x42e8fe89bb3d679902871a4c18406bc2dd390d347dd02ebd18ebc88eee79311e, 0x235dd897e39ce68cc317c06a948c4213dd5d076e23fa5145eb4174dd5b8dab43, 0x11a299a96d544aab40ee9bb9ed7cd32a91fbc3c6017ed1c764c38af243f45939, 0x59277eace24152ce45bb6186b4a5cc36e8df3b41e0b88aa0a0246624b369cc35, 0x218a823876e98911294324d1e92bd0bd9c8994c3af000ec307d44141a9aa0155, 0x69b73702456d4e4b07a6d3e36f05d1a979dbde3b0d67fd65fbdb00f011b62093, 0x49ac97b82db378f47e036bb14961a4d787c6704ba227dacaaa227711f064e253, 0x5c478696bbf93c577221bc7ad8f22dd1963c2951aacb9ec51b7617a65d137455, 0x4dfcf56919b6240a5108e621e60f19729a3e7b07ec7851b355490b2746175deb, 0x357e39fb25bbc828720ddcc08cafb11d3851542470cebb4105fc462e2831dd1b, 0x6775fee1b759d4fae83a7c860c58cde8fbe90d5517e891d030a093a7c9b0f13f, 0x3a08cdc1e2aab52c8a367b411c1b2589789858831a9988dae91edfb2adf9aa7d, 0x657cffe02627c73f0c271cfd6779343a15a2589ee9af75cbaac1707ecddcce70, 0x4732dcd627a9e703f724d0e2505707cbfb8612822e85c45b24e0f26cb0ec6b9a, 0x61fca0b87e02f35da7069bb06d85ddcf460516e960e22616ea68d2a71a861692, 0x11346f268534e40d0329a86827868e91985ffabb78d8856aa0d602f107553326, 0x3b78fe36a4784e279d665f9cef6fd29f00998bf073654a09d4a49441104e63e0, 0x398e0a836277b2767bb83a237e0a4c9ca855f86a640505ab6960f1b0548220ce, 0x34f88e537d1ed30550b04add6bd7a51240ab81e1f47b32eca150860c0dc6efbe, 0x1f781608c088a8e738073c65e5deb487ae4125688d2da8b819337e0a94c755f0, 0x58d670cb34d9cef1d2f46742c6cf3c26484fdf62097d4495269ea41a45020f43, 0x1d71303102e0568554a86d81c4665a1c5a974443c95a37f8d87cc3421ae5605d, 0x6d79a0754b84374381569b32cf98e5b6ce9760f0e105b6a4e0e970f7336e2fb8, 0x13c231d0ebf8cef56e90fb7c3840b5c1cb8d5c7e0d90e3cc4b8a75d4a1d0e429, 0x206940fb47a1b2286f2d3cb9e2013c2890e330693693ebacc58a7b606a71367c, 0x31079c35f92517d2e2b94cb15040854f93949a4e99a20cfcf595abc29209ab00, 0x70c0bc3bcb525d39d6abfd0b1c067ba7b47685e7aec642c10f34be38ff085a50, 0x1aac2e474a51d70eefd417f6bfd9694806e311993ef2bc9db21868ad90b35de9, 0x25a28b8e3c52916e63a2b239423dde6c72a23f080d411c7ede951c60ee954111, 0x6fd956f1e1f63ae8ef05ff4f50d20184adac6952c3a896ab08dea23d6de0303f, 0x5d5e8c4a4573f2192c0fc57951945c0b520934326b6a73e08f37ed728e05e8db, 0x70f4c250a01a50c3592013b2995c97f77e05fc5754eb65b5e82f060188090d56, 0x67366c2f4abac04dee4b9f8f444fa2112e62c13099f68d306ab25c237ff418d9, 0x6996a6034f0c4928edc496f7e8332e56e1b6108debe8b8932a30564d53ef56f, 0x2017891491ebd95a68650e990fe79a400a53744c08ec87bcebc9955f93ffb23b, 0x24c031e4f8bae59d8df1427e430db6dcab20ae28d65f49733787885616ea58fe, 0x3826513146ba7e1b0d2d0bc0299db7ac6ebe0c87cd67085fd3795d3603750912, 0x1221bdec2a5371a6239c2013f9f57885685cb90ac89119a3b4b257e300b5b07f, 0x6472f87d9e98cbe6eac0a58a8c692a753631fd161c589ceaa8e7aedd45e3f017, 0x1852548af12a20f433251db091201a16332c0a936625e50966318e9cf1ae8389, 0x635124352eaa2b986074f1d2f161ed18f00b6f7598bddab133123c76af4af8ce, 0x58eb2e1c3f8221be7807ad73eaaa527678b7c1c1a1de1e139705257f70b7c8fe, 0x6b19d7f7fa62f6154e67eaf74b501480d16b0ccd3e145370b9a5c55641c2799d, 0x64f8b8b811c8be48a0a55eb55f3e84272d7785cb92ba611bd6f1163d0b48f40a, 0x279a4610d844960ec39e549a8096d0d568d26b67eb5b504cc687f5c71739c00b, 0x9787bbd8e46eab70b3a20e8a617874e438e7926c289bdf87c515623e35760d6, 0x4aa2557c7e4b8e96afe2ae04f91bd328827217f8c7a7a085427ba00e667fd854, 0x4b149157a887a790225334a11b45e8da9ad2c468a2e1d0bb58613eb9f051bf7a, 0xbb280d97faf7ed4402386e82aec4d4c55f7188d00dd567ea3a3462699028f93, 0xc95b5b2b357b7226817e5d577adc2e68b5a7f57ab7f2a233a911b3c9e2489e0, 0x45c054e1a7d41482616196a8370842a12a56febfa254650707e4d448f89fd1ff, 0x6f8f98bf0cc08d86e65b76768fe71173b7a5679f76f4a2b511cd5b9e87035280, 0x50046e239be12753d53a2354c02ae7564191eb7d718f42ab9b1fe7c144d24762, 0x41e8b96f2ce914dd58c6b3e772c4cd65666369fa9b6b1a33855f95cedbf7461b, 0x29aad2720bda2b3fdd2abdc681fe88d7a4d1b0241c99b6beb483d3ea168823b0, 0x3e5baa10f3c61c123c5a2ea11ea6c132ef0943d90ee7bf4515ab4ec72baeb2ae, 0x14dfd2f5932e40e986728f106816a3d8c83669a949a1d3713b1c878b6c335709, 0x4b99afa96788c251f22f07aba290b9a5b505cee2a8097c5bce0de5ff6b4e5caf, 0x1161c7bb4b0a12749df9e85f24f46b047452ca35d723dd34725cc1b06efeb1a6, 0x3b1caf70fadb3418191a1fd1834b7e0881b7ca4909967138780ba63b09c1ee20, 0x1cad9936752b2e5ec73bf43dba17fa5a427af55b257a325a5682e6beb1afff45, 0xe5dcca11a856a3d061dfdb5c492bb56e1590fc01ba1e01e1194659db97ea2b5, 0x3e70d746c061725a62e359c36f8f508acdc072c8cc45c5b92c80953bd43703f8, 0x4803114e022aa56e80989d4e5cda8784a5cf4aa2df15e27ffc6ff6ae7d9e834f, 0x28be05def64e0a90d843549b572a315b4663582b2c8934d1027102fe2d3c2c9b, 0x6e0bffdd47091c8bd765034eb8b5af7ce881ac243269c9934b0f4169dd99d5a3, 0xd1e43eaa4949fec6867d00c2394ae738157c564e592a8e9b617afbd2b42db10, 0x38a269f09653bc444861570617e64db2c6bf6b7257b53ee5a83cb7fbe3f842c4, 0x3e4a31f7daa4e4be370284f5871d01300a90e58e4678d23a96b1ad2b29d2af90, 0x4ab603360093d1c88fe7c044705a6739670710fa14057c32ce2393cb96a05b1f, 0x5e674f9d45444a979993b2cc1625ca4ecec0cb5061db9974f9fa394d9f146f7e, 0xb91805c6dace198af0b1005c27f821b09af1ccc53c24ab822fce90c27a1688f, 0x1f5c4cccdb41dc82b9e4d53811a4824e2a741608c49a06becd2213946f089bc6, 0x20aee039631336e4dc93fde68558ca844eb73c914b1c84dc876565ddaf73c5b5, 0x6ebcbeab825166b931519acd6057391cb63060a67b18638e4b5036a62b0ed276, 0x2b927cfa1b77a6bcb12f2a623c2730c1f8727dd6a519675b556e7adf11ba75ba, 0x43e6b943bdac6007881203f6eb6291288f75c8a07875fd17ef57f69c89fede10, 0x4e730fb1fec6e2d796661d740940fab42438362e5bbb0ace637a8b7838d56b7e, 0x1b2885a572b348dd1e389754fa68f37f190deb4cde75cedbb4870234f383661, 0x4f59a2f44a97a449187eb29ed6572f91e919e779ddfde8eed38dc0dad3114161, 0x689311e7385e6b0a9cf05a512f75af70eff69d21622c60f90250773c8e060a43, 0x34e45fb290f7a5a1042bb4f43678ec6739f05bc9e56367a04745456c7de0ccdf, 0x5921faf51a77eb26d4372fa26d1b3d6265fc2271945f04a7298145d94c672775, 0x4bfbe17c7b7b033168f1260340d66c209a274a1cac99bccb99909d9f212944d8, 0x495ee13148cbb0fc14ce6a1c0295d8fd60e0efa75a665784abda8073be6f09d0, 0x5be2568ecce933894ad7ff1eaacbe5295374d016930d76ecb19ed09e1824617f, 0x613205d453d69b26f102ae6d3553a59493b599c72b73ab59ef149704437f166f, 0x3d2ed304d95bc9aad5148ffbe7fa1491e6c8a6117d7548d3223d16e531e22abe, 0x49c399a5ab388cb9b02ecdd5336056568abffa9c47e889c02c77946166067b31, 0x6071ba5ec9e9f0749b811707512ea739fef79864142bc5b1f44e4c213632daba, 0x3fdf24794ae60fdd63258aa58ecd2658c2baefff127e0069084a61ae1f7dede8, 0x7ddea62908c426f85bc8d02f24df41362bf01c480c9e46c5b8ce6d3c134ddba, 0x4601b19970299be7d5c50aa7025156f98dd82a51b4ba613de62397ab249b90b4, 0x369af6095c71c9ee33c25b96fac262b848a7b3a967efed0941a3c02ea1261121, 0x4ea2dcd2d7af28f36e13ce3844847bc255a30c03975e6945b5b80f1c4f6655fb, 0x2ebf87fd6decd5b9e4c43396a5a716e3c88c93b6a9fe310f1b4e5539e6662c92, 0x6fc2fb002fcd86abb754c3577315f01030f1fb91b9709703ddb38d0457e4ca5b, 0x33a5efee54ab02ac0efbf8e4d1a50b695d318f01af17ef0246702053b31bc9d6, 0x706f28e11674be31386d14e45fc172e3633f1ffeb92c030abe4f87626ea2f71c, 0x4159bb20c93f1c31972bb9f04f6b7059b496938f07126fae1654a1b88391fd5, 0x3da17e6a91815acd16bcd90dd38d5ac4dfa9bdceaeac87a78135324af58d2cbb, 0x69f1ab3a08579bc9d66dac83f0a66fb59c802ee4d82ace047d47a59d3cff2058, 0x4a8885cacb9754778e58e26ea02ddacabf0799e27cba92e67a0e2239f1397833, 0x235b4c3f37d021424e262d81eee24eba03c35e2340edc7ab68484dc37f18dced, 0x2bd079473d313db093ed31556c4a80c75acaa4a283de5f17be4506315e023d7a, 0x2499569e8b2f3864c1ef109dbfa040b124ff34ede5b5c92fbc7b57346f60c210, 0x5600ce58321f6eff0ee15ced035168b4aae4cc8703aa2cf322dc2feda6f98d85, 0x15dcd9bb3b25e086acd21b8ff469c451826739363d094d77682c5cc77433eee5, 0x7b058dad230ce0d9bd2c8e587c7dd334735db04846585f5a12514e3558cfd95, 0x2f26a1c1b03c43138f4a4eb9e999aff667ea8428babfc5caa65764b87d8a55e5, 0x2ba9fd70f9007a23f88fa6e793d903d183d74d38760abafe75092d995b9bc05f, 0x18bed5562481b34baf593b1fb99cc3556aa650e68903c243ae1886bb850505de, 0xf6274ee0a65678ba3674435bbd93f0d66602783160cb0f192fe6a175faebf5a]).* from "../poseidon"
}
