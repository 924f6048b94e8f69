// generated by tools/gen_poseidon.py
module bn128_t16 {
  import poseidon(Q = 21888242871839275222246405745257275088548364400416034343698204186575808495617, T = 16, RP = 64, IDX = 0,
    C = [0x11e27da7b7ef964948a332974d07cceea778bc33aedbcd09de222fa22ad0b101, 0x1f60381b83b44a8fe65a0f4142faaafc5fbf55f79133c5740c53f036a3065b65, 0xfc1e1ac8ad3524ebdbfa45dcc51576548234d0292adfe1cd70a706a1b6dadd8, 0xa40798ead3a12b78bcd8f10bb15cb0c426bbd2282a81dcdc070084ce78b8d76, 0x2dc09d3357051155987ea95594436b6cbf393b0135f51e2f675ea5f462f4a9c5, 0x104b9241d534264532eda181de1a154dd175ee150f349033e46ddc54181da088, 0x127a6208d98f6cd387b802fa44cab2037b3b91f0622f17084f1b8d8ac9d12698, 0x2d075ceebab54341dc02fb1f50d938ce1dfdcde659955a930ec18f8625f86d4d, 0x44fd5c2101a20be2ad923bebe15a477f40c6039a3dd0d7443fe72758042010c, 0x2b302c8511fbd3702b815564c5399acb8a8f2a8eb77f96c7f0849628e09f9bc8, 0x7cbe339db90599455d1eded1e8a870bd302c92a79b1d0f4ee87222cce99e22b, 0x1326749312c6e8bd4ef24c97c809f78ae548394c94c3df2f28ffa8105debe211, 0x54021406b8d1f8c7080e7c245304e4b7a797cd236dad92d929b223f269780e0, 0x5c0e033b589f8ddb23a9d559eaeecf98691a8d018f1279bf406d08f2787cc42, 0x2508a8cdd450f969b61c749d566c9459a16ead4330e35d5415b12eca38584bb1, 0x264dccc02e574ca7e736da25072bd8fbe9909621fd4f4169b2bae8d368ff12d2, 0x2a938c2540d63615763ec3ba10c1a26001b9f4bf1418d1092a6b02dda5195db3, 0x254f370b85f58a7e4ab27a6203f3a161c1b070faa3185baf2852a75a865a400c, 0x4801896f1268e5abf83712c7414c8953d6223e51c44cb2dcab0b29c14952ac8, 0x1f7188e4d4f7549437f48fdab22e874e71d0a1f18c30106e3dd2721f99da561f, 0x2b9273701ae02d7b231ce443af1d80bf21d65aea616353336059f755edeb68a0, 0x1597224cb8e905ced829620aacdcfac76e509a0f7bc186fb7060196db93742c6, 0x1d8c5a65288346907cfd57a752372196841e6323e96b39da7fd17a82c5e12716, 0x1b75dce950731f508251b86a7e1a5139920d2bec18798d439f581570c1dc6630, 0x2773a01869bf9ad359d5ad8209b337119ff8deddfac6e4ed2c8fd0158ee8f2ab, 0x1a5d47883f24462610cbe7ad0e9b1b8ae5930bd3b9d4c1ee01984f6226515b7c, 0x19827732059461e2073cd90a09ad54149b1ca5909b96281a47b2d9c398506cfd, 0x297c8bf54b03a6f7ff272465fb881c918551bbe984751f3e9f2b30ea37b1a4f6, 0x1f3da36b1ff5283b078b69f5f3a7d4bab15a3087c5ae8a6dc307eba7722e40e, 0x167ced6e39dd3bd6d655eddd2abe6c68ff247d86f9a6a6bcbd41c98d37b4f132, 0x85d19b0e16f0ac29f32da541445e8a8a6db9a7bf45e741f9f113e7526b8208f, 0x4f365f710e9acd5c1653cc6fd8e93cae2a0d363f1697f3ef829f7435525ea4d, 0x128d4f03d03d7097d3a22cdaef6b11f329caf0facbc1a67ba91ff493be9ca715, 0x280210dd41268b133c9fae770b799affd3e66805c6167415aca36eaa02db1021, 0x204ee7c7d4ea06f7ca65faad631e703e0e3dbb59c45b51dcee73b0ca64d45cc2, 0x3042aff09c1765b4fd7365a6dca0f1172666fdc0e549822b03f7388eac33d786, 0x23b78077e751602be7779045861cce3ad318670bb82f33c2939f66d41554c7fc, 0xf351e14bd3a41ad7703cf9a906bad791a627996b935121e6cdc3bf71292cec7, 0xe67b0135f71d48596749f9fa8585c3789441022d45b5b4611a507bd401d0ee4, 0x6e84634966d462bbd68c14ce6ee1662769e43314e0eb85e3d5909f518da9df3, 0x1761112f15f357cf96422bb46796f57c2c7d6da40169b8f5794841e8561fc02b, 0x24387ac57313799c7756999bfac495b8fe377a7385526c8acafe14e5afe039c7, 0x1f3c817cbf94302a06e3526fea7b3218a287a31299f0dd162b66d358cdcf2370, 0xb13cf25c272dae339f1a6f30d43d40f74bc0b938ed73bf16a95ecc3c4996fc9, 0x2c731e62db4cc41c56cd465c4a5e8d5719cb50ae7737044fe4ea859665997f02, 0x961bfea8f9f2a708f3adfc127fdb17ebeb4a5632a8264f17a494c0f0601156b, 0x1eefb99fe9dac9a91963f112dd357ed51f599b9254e5be2c75fd01a58ef7139a, 0x2ff9863fa2a6cae3de116b1d6aa56a8afbd93c70417b8a0593855a1ff574123, 0x29655fc030f0a0f6dd2b00caba527938fd0fdf41de89b42eaa16ee598fd031f1, 0x2d9fe744f2beadb989869fc205e9487697f56721beb1ca230b59b82eab27b050, 0x4b4c3f4f1c21d6f389848280e6e006c0552451cedbf5ab96defbf0c2cb9ef92, 0x13a8f3f3d0e87d53b9e959662a069638fbdf077024564bc2a5676f0247e8428e, 0x1875c2e8f43d9660e1a556388fd81741eda7e486cf6243c2fe1752f919859b7f, 0xdb7a917f7efc1d2167724af4ea32b1f6a6cc23c1db5abfad9020dbaf5ba5371, 0x1c56db7a81fc78b94b267dce45a4dba48a4288b99eabd50b1adcf132dd4a7c3, 0x1c9cb5a5d0274d9dc31ca07743d1d7b4d416801d964039851f05678e4be82853, 0x2f786dbf83bdbec66ab656694d5348988b8252b4f5a3f4a452a075f60dfe92a, 0x18b9789a7a68183ad384ecf038429f75814593c0fea1fd25f1001c3bec4488c4, 0x28eb1c34f770ab912b55482a946bdaaa29df2b4c947c29ceb7c8a19e38881d61, 0x26e9c9daab62a9f1d6a4c694bb0c6fec274787a8322343c03f95dfe65ee78e81, 0x111977858879145675ba7f1d70f301294feddb0a802cfa944a75907a4c2ed15, 0x164f34b7c356b9fda1a7d8415fabb683bac61ee70c23573fa72a9d756ba52cf3, 0x163219ca5322b3774e75b1e6f75657e0bbeb76a9e323b7c788a7dd6638b2b3a5, 0x441594f59c65d1a8576b8fbbab4058dc39002a1bc4357084194ce632b9611b2, 0x4cb005b4d43931c9c4abc50b639a8e6e20b3ca5afb60b06140cb24b7e4a691e, 0x25eb50203caac17c399c83c674cfceb4e73f227228647f9d220e95d3434a04d2, 0xa605f7fe9e36bb7504523525169c6689cd6d2fd076d7dc11277ee1069316776, 0xab2fe209b9dfc7c9007248cb7ca36b4c14d991ab3b8d04a163eb0e836a46c58, 0xe1459cb5c0add6f90f949965603320b313454e6747af5f399566f5d23461326, 0x45ae1dc4a86d1ec80dc442edce9682a616d26e76013675abb04cca45fce07aa, 0x1834f47c13698cbb916059cbcc88975fe15dd0e9c3319865e08147e4d397a970, 0x2039a1c7335a7e4c7a694b5c5b4e1b44f620960d88933ed5237422ed53189f5c, 0x2a10316f1e66acf32e2adcdc292a350a00d8d5e87ec5dbb66949e3f03350bb3f, 0x1360b91415459da5840edf14826aea05281f973dc18133cee5cbe2761176824a, 0x1505e255267d336a081db6f08a897bf2ba40dacd4ec1d61a990cfaa40f6a5f6b, 0x350e3020ea30d1e779d9813a0b650977adb1842691e8a364c12b8e458f77d33, 0xeebbd4c2b0c9b32b82d96d64b0d221a8dbd06413b607ba69f4b9d42cc12cafb, 0x15b2d4b361df49e3444a2404f7003ee043147cac3d1428711f1226b374d87f8c, 0x29c8338c5cfe98df7fd49f9316b4950814dde9d66535ef624e892c35d380b18e, 0x1d7a2627f55aece0cc81b775580ccde95fd10f112f8ea71a7f8dce7e9ac798e6, 0xcd634c27ab406058abda156af456572de2f5492005587aee69c7e5d345d75ed, 0x1303fd48e2656565e7a16ca8e8523131493035a9721d354fc44d7bc59b727adc, 0x52f5a4386ea22f5ff06ffea6179e58617bc908a3dc6b1e7462819c9c9e906ab, 0x77e3bc5ed1c34ba3702fc0a42c45ba5c714a6b0c10ba2b4d8c2a7aa75959293, 0x8d88160882fc8afca6044904e7a984f85c99efcfe147bacb0b7f1046f953d65, 0x1ce3b22dff95f834c7e5b6326029c6bcb4d5ae4b19ef69c40419d1aad796a189, 0xd4fd994dbcc15262df5f3c0c9adfec2683e3effbf506e5309dbd8c2b988ab8e, 0x2ba6be5cd79aff7462511ef5a38a4f8c78c74fd049e6b8657cd044e82abd94b3, 0x9767a2d9dfa39e67c95400400da96a192da6fe5c0f02cdf1b9c39dc8e96864a, 0x10521c723f47dc5fefc35bfe0ce7e33d2e045b2a018e1093662ec84f104c05e, 0x144f09b80346ccfbc0865fa64d220d6dbb7b3e8bbf0363e62fd8ccb457bde1ed, 0x1fc0b9932f74b4db56d09315cc6a8e86205276ca3e3b124963dae83db5ed6baa, 0x776d2d972a004c04a8be7b5f2fcebb02e1a3b1b787036e3514bb8f972c8361e, 0x221d6e560e54eb27665128f37e1c312528be49af3aeecc9d7c56755f076758d6, 0x164189cdfd9833b71c1f8372e999ba27bbd20de62f965ad406d8aee67b88e1fc, 0x1e3e736ecf9745b4abf71a4d863d8b6d03523eaf82d9274526393e103b08a3cb, 0x1ff3d30b3286b988f501ec920b1622d2a0ba2cfa9dfc589c53f639d379c10051, 0xa50d9824fcc95a9d22bc08a592b1a6d396cd361940abc3f873a725230083a7e, 0x2db50a1e16be63bb63d42de51689d990d2e4721b93a07edfba28f208965740ed, 0x1282594ff20212e8a581a228fb4405f2ee7d34445566fc9dea011d89b202bb92, 0xade27c077951cd335ff789b7b4d63ff5d0bceaecc46dccefe0680c0ec6ef09b, 0x27374adf1b38ac62d078fa4e713692be324ca24f2ee43e24eb62adce2f3e67e3, 0x2eff75fa36e8716c9b6ac0acb78da92970cf7aca6a0ec3b37d86e97538242e11, 0x1a28225582a1edd464784b11ec7eff190fae33a61a783b845327642e82fae68e, 0xe1113e81de1bcf204e51a8cc3f200047f3d8d85704c44f5f5ac6ee862c9f439, 0x210575d20f3c2816b807074e72a672a50738ed0c4fa09b6f966223903a479f5c, 0x21e897f749c84ac2faffa9e264ac61b983f03bf9f337bdba4dc48c5971a14351, 0x1a5687dcbbac62972aed85c50e70cbeb50193d831c0790ee7bbcde7d9738a66a, 0x4105499d5cfeaf115fe0a40d742844e806b107296b306c4d556d2f244e49577, 0x1af9497a7280e1414956e80f4f072e2f26b50a06876967cdd57aece720c6be48, 0x2a0e2d3eec6259b7ce7e0eb1667e8ed0c16cdbfa2247b8bc7e308ee32e2c6031, 0x2d7c986d3d3d3be8c70105e48492160ef85389f1e31dbc8814b0cd3e84ac5ed1, 0x251d1231e763979238b7df4a8c0f5019271de5e4389e84c09e5a596d4e1e22bb, 0x263b8dc03ac7d253f5cb7b8bd922a290675babed6364ae12cfa1fab8c56c37ec, 0x7c59c31f979dba930b94c897ce7016c9ddfc527a696786b7e5e1c1938a2c28f, 0x9f47f021fa65de6b54e751dd5a4bf917bd7574e071c7bb31bf1a4e63af2150, 0x1c160043dcff2330ce441d49f2804832969f2731383e524c8e7a9813f741ddee, 0xc5b6896687f066b9cb23f21b32c269092cd6c711dbe66bfde09858735cb837c, 0x23acbd7f928bbe5b72a7ec442e6684c8f0d50cf823f02804c7850933b9b70cf0, 0xe8ae8a1d1141dc07829413847ca857105e5189a65df9ac40ead4cafc21d7ddf, 0x2eca0989f9ab916d07ab296a0224fda36a0bc7a5abd571f3368054da7795e302, 0x2c76ceb7d040b4e58fe06b7b0fe83ea88b7b4cf376296771ec15d12237cd8f24, 0xc53afd1b381167d73d14ab7db8ea41b9335cec4194b105aab7e0060ee1e3044, 0xc36629562a7dc67e58cc15bfdce2392b3a1673602e970f174cd6c6b14555322, 0x52d66b614253ade8f74000275db8525f88cb7a71b14df9d8aa4ecf26f4c9bd1, 0xde6ba1409046058d8320fd0ebf9fc5275f837ee5dec27963db414509f608f9c, 0x109ae0524afc2b1187e88c2fa3a16f6388568b7f8bdbc4b399fc00a257bc1b4a, 0xb13e5f2c901b454ca49bec29ffcb5da3e13fe237ce86ededc17da40b9045053, 0xc9a986af2ad58483b553e95c68bbb3b45829ef6e4e7a4ab85f1728209ec059b, 0x93a4e1fc46b86a210890e741a14ffe41249eb0b0008264ea6dc319a0735cca, 0x1bea7e52a3aca2937549923dfb7e35fcdf8f5c81227637b3015ed1ba712657a, 0x11e88dc0b5900bd29542fbc23832e749bc9aab6347f0bf97cd3a36c6308fd596, 0x138741f5ecbf395997f21f212e76366491f0f58ec195200f1033855ceba4302d, 0x2447012a946927a4240b4713db8d27e130e419df4fbb4d68a1e0f1b95dd366d1, 0x276193a782f6de5b903945371e5341b9e5dcace04b9768e67be9830a2f674d9, 0xdf9bd68c4fc32c8c064f6c47d517b13888677c985d3ef1f1c49fb880ded7bca, 0x29091c18613963c6cba4f4c0def50fce1cab647a8901957ee2a55305c2b0f8c1, 0xb78f8ecc6577966fed47ee607e25f21b41fd67a5416de3641283f2fe825c959, 0x2e8f059c9b78f62411b017f87e900fd70c8036be1769c5344eea4159c62b6b3a, 0x3e34c2876a83413029cb7018f657b52ac287ba351f2521738ad7d309d1b6732, 0x13a1f660a87557cecf01b505c1a47fcdd6b52c5f05a1ec4262db308ce86f6b2c, 0x10e9a5996f8e3390b6b786102cad914520a8e93e7ed551b48f3245687f14d35, 0xbdbee9846a8d67cd9d54f0433279044d85076041b07c3e224b38d208ff48c4d, 0x2381dfdd9bc337d5d6fb861e16ca28d117d586d16d5eeeb7419a661c782c1f8a, 0xb856bd8fdd6ebb7f0f1ded0ef19204691e1c3781f8a9c4f58511f1fa484fcc6, 0x16ec15959be8357513caa8a3fef0b2fc10b1696b81519b0a2cfc18c913178b70, 0x1943d70c0ec13c9142659121156a773f4146d548cdfd42e40a215b1659486e31, 0x29e5268ac796d26efbc2cb4f98e2c2a01effacb1501b8582ccaf1e311af2edb2, 0xfd72d28e75be53d626937f75af22f744ea1b7dcffff94c866f3da8a8978e4fe, 0x19ce9f98a369869ec45bfecb1f112a5f7062fcd6c75dafce902ac70ccc0ce370, 0x8a4d149a8a27a2170bc9ce670438eea64d211d3a97c702c1b01dbd3bd5e91ff, 0x19150be38fa5e5fe4de7ebf98d59fc9af1abaa13f5a068cb716002f3a6983910, 0x23c45261101440def1c0c23ee7aaf5d8b15ee7bf31ff7374ab808374d8daf697, 0x204a9542c690fe338feab653e9a46aacebaf2df53e4e905e896414cb5a0cb126, 0x128efd4c6254cd03c21b21913ce52665facd0e9c46f465c51a458124723adf10, 0x305becd1cba07fb742c9528e4b9276d871b1815afaaf6218cb0e758aae5ece7f, 0xbb14b69696ffb4a46fb91301af32682fee9a391a5372ad19f3a4e320bfac6a0, 0x2f981d8eec9950e39c6fed8079fe44a2f256e7e686a60cb754bf183fc3aede0a, 0x2e38c6f6a7489a54ed982c483a2a7951eb3d0b28e48ddf8b57d2969f78369337, 0x1bd7086eb7150c0dce1beba39a67cbade72b8b72e1c1bb6f0ddb51c13ee583cd, 0x1c8b437f2be3e61671e6b62fb698e8af1872031196a43ffe76d1527b2315b461, 0x2b91c7a78289a7c43e1635e8eecd50ba4c9669431f10243a65ccae6031566fc1, 0xbdf989e7dddd8d9451c4561ca77ba707b738f9cdbff5d15c110ee7471370f83, 0xad1a3217e86645a6cff1a4d86ca1f19afe85a45e74912d616a4d2b430bbd479, 0x256ff8d3f524e4ea685780448f2f8c55b5925342f08f944ac78d4acead07aa08, 0x209d7ab297f5a31258207d3ceda7b2e121683d20ae561c6d460c11ebfb1b6b01, 0x9afce8ac2c2cf3aff6002441b98ea52fc86d3ec411216e3d669b55ce5b8bf52, 0x29f82b1ec02e68c25099f0104815897e33ed9c26dcff3b2c89e6a3471222c934, 0x3cdf7f8fb015f6861322f7adc221ada280021197bdb71f800ceef89ed021dd2, 0x27eb263dbf7ceac824d85f2a75380469227033dd02153365636df044d8cb0b61, 0x1628cf084280bc149a9e3ccbfc5bd08722101ae4a043d33b2f98ae76a9d55984, 0x2b168bfb1e6c4ced6a44fdd5618617dcb8e9c4dad7b04c4a8955209f1b61ab93, 0x57de07094dca307236a6a8ccb3f1720778549057aeb7a7daf8a463ba18c85ff, 0xfb079650d5ee3f78603c60e8b545313be5e7f7d6c1a6103fd79f100ac8ca101, 0x18d976ed9d44fb7437320b91d3295c8e336e7b402659149b2cabaeb272fb06bd, 0x1edfbbef180142c47c4c7f3ad1e2cc81bd020abfccb432ee327caa22e93ff45f, 0x2510fbda0c1b8256290a2ad3b4519c815f0397bb8c85505af672aeb7da1f925a, 0x14783ce9bd49860f364d0e46defa666d36138dc406255b9200904fc060cf0424, 0x100e00477369c0c6778fe65369744816331bfe377db33e66f63ace31e3b56857, 0x1aea93b51726a8d70439ddfb7e2f8774bde996b72f9cb00cc3d7f2ee2e0c45c3, 0xb14c0df6b2222d977213161401229763a551b889694dfd30e80df7e6f76cb49, 0xa643ba72531a192b1ef9c8274ba8eab73fb1a64c3951b672729c60eecac354d, 0xc36a12c83a445a6979b13a16b87a12bcc635ced8c8421ef9a8cb2839f396b02, 0x25cb792acf147080d3a3c2e87f729c5ebec1c43898e222fd0e50a951897d5d39, 0x1e1064f65448355486dbfa2c2c83579fef6431deac35046fb277b5885b09bf99, 0x26440ee4fc4c477d379980c1834a3b2f3b261d7ed7b913e2950676ed20f87854, 0x300acf3e9a901b9c681b43a6ea7b482cbfc4495dd5125247d4c9b2ab843aafc0, 0xd27833da8adcc215d9a530696c52693b004de152c6471945ca7a1701c3849cb, 0x1c4e8f6024bb796333f853462a295e0cc16a6098572ef58d159a528cf886aae6, 0xdb38e1071218ef0ee5d77ac780dceaadf1cf79dc9f24d2f3c9d58412b1a5939, 0xf8a423d040aef0eddd6efc469f4dd9ddd7fe591a4aee3ae3906da7a77f8bc22, 0x9da570d55e2f64c94e3b2e7a2e255f059dd362f796a69142966756fad8590c1, 0xd7cd5c265cfb5b01a59e4448c67c7addbc2c09b25f078b23c520d78af40057e, 0x2c9c47bc4c332aac15ac68bdb464ae193a745c1351c7d1230b261fa40b95df69, 0x1ab135f3c81fc395a7b94e0b9115359101ec75e76adfa14529759393a1789c8a, 0x30521d4082f58b8f3a12b7c8e41d1fd968284acf12143d85907ec782d3dfaf9c, 0x1b90102210279a42b7f8f26c7bd068dd82b76cd3fa2f330145698a11f5ed996d, 0x2e9ac434179029826cdbc624b3208030d4f0b265e4a8e1c70b89513103398096, 0x2784c3d71d125586185496e3fc7c369996e700ad9783b23f41fb483cdf8eee37, 0x25305428921f6e34da2ab05c3b762268ed1b1bc3f06acdd1dd5e32691e62ba8, 0x1d3006e6c5725e17b5828b5b5a23716f9a6d0a4c867fed2cc2543dc0ac99daa9, 0x168767323e5097bb2fe6682bf6ac8bb5b8f9af071ff2602564739988a3a6f0bc, 0xa5d80b200e7ee00500f5268dc319e00b797d0ad358989a15d8af551421e1bd7, 0x25dbb5423ee2a7d7861f9982f522b0c3aae6dcfd0e90508cb6550f724d7b8282, 0x25e1b972aa7576ff000acf7ee101175d1d1ef18264415d4fc9f4c5c3362ab026, 0x27a9c670e696ec5287b8b606a5c231ae0fe3cdb764e2ef99ad255231b98500ff, 0x260d6606a1db4854bb358fa415ce13ce114316d871a7a2b90d112ca2eb7bdf05, 0x2397a374f84a29a5ad3798bbce567eb631730c745a7d389e654208eececb28f9, 0x11ee1c616304dccf020f88f6a48fa4072126e64e2796ffba89dd93b3a91f1f2e, 0x55ae011520b4ec5b5a77d3b5f377a252ee98781a8c2944d2bf0ae1867ef9215, 0x17007f74a2fe2b85581af879d136d587cbe18e9a9c3ba1ac01c50cfa2fb8ed4b, 0x214ac964b34b210e03297fecfc88f4d06a85fcf0f15e380f948b15fa1304ec1a, 0x1c2146ea153de11fa480b444285fdd1cda53cc2728a796c375c47c2e2d574042, 0xca0af024d983aea8ff6340dee9ec828dd798762c18f06bda92259b3c158076b, 0x12f82ce9da76870a65735548988e6e0af180c6d4b5d98c5ae1ab86c055ca6e8, 0x255f614a333b1375e92526e39d3763fa78f13e535f7eca2a2a7b97ca0d44cf6c, 0xd0354ad322f5e1dffa7aaeec44429ffc89e4df6081c049b7ed3d3de082e7b92, 0x39f496e8bf76be9faff69cf331a848e9280eda0326d5a191311b5dafc27eba0, 0x1b0b0e8dd862523da0903ccbd518edc5a129517fa698941fdb0925ff03cf5794, 0x221b67c9b923277387b91fd41c7654d37ceb937ee692fbec3afe6eaacf2eb6b0, 0x125249ba3c9ac4c59c1dcdaa6de29ab9ad1480f8b3f020e468608f65bec51157, 0x264e9390b7b2787c4ae35d9e35360d7807e3414b4077b533b85381811d1e730, 0x1a8dfa17839af5cdac40ac89c5ff2347e70c17706e32688cf7b18e09d19b752d, 0x2ddb274e22f13d1e9c186eb710c2b3cf7bb0378ce46226c1bca058f802e1da5, 0x1ed91d70a1e0e229d8566bbcaaf63b0aaa3236dc72dc772ffb5264c340f945ce, 0x258d9714748ca3bad62b1fc9bedccae02f8861640906580d683f21131c5205ba, 0x28094fb0c9ce3fa37073de7a1261bf0f3e70f6338fd598edaef57849297af20b, 0x1b268245960a242d8d60f4830928fd10b2bd9b27d8a731dfdf69475603e4779, 0x1ccdc2c48249496818618873ace0bbf4ab3a3f2f6497f939be73330ad18bdd6a, 0x10d7b6fd7c71bab6887f51ec5639a447682d7fd6ba710e8fb14f81ed72c71f6b, 0x14a136a1e4827d707dacc928f8bd5234cc327c8a3e4ba6000c6db5ee3b125757, 0x2991208842feb5c9b11c6180db57f479c3289c9bbf2b6d5e639b14d77cc25858, 0x864276f06cf50500d51cc2d6eedca092f1efd1e35717c91b5181c66eab3485e, 0x1da1115c035901d42d512b03bc2962d2f3de504caec08f18437c90363a5cd18, 0xce4c61522cf118b66edd2dddf683b407fdd1d00213f2debf9963b5a8a297613, 0x22822be14736c770dd111018ad3a4818979da22eb522bb3ee4b3ebf4f94c0138, 0x2488c2ef3cecdf980e826af298af3b81ced49000d09ef6cceee194c13f3a44f, 0x22b3bd43bd130c0e2e989fd0633e352805ea72c21441ddb14fa2a4d7ff5b5ebd, 0xffea11d900b5c13cd8e4632e92d28e55f4b02b9ae182eb262d9fc054c592acf, 0x14acdc065935230efe80adbb43ba56e4815cc53e1ebbfd39004294d9e376721e, 0x15fc1e7cb819924b6faea51fc1adec10cd1e3adac0d0a32460a0d4a95a03c6a1, 0x547d1912834376f0035790ee7f36ab73c9c8f41e1c4fbcd7739b4c767622c51, 0x135f9f4c16f97545b9cdb5ceba5acb9a4e52ae255e2a69e22b31145737898099, 0x8ce4af40d7de598c564f0c38c6620eddc9fed826c4060aa6c28f0edb3345e83, 0x21d6a6d971259296ed9b72872104b340cedb9119c4774b5b08ab4bad29c161e7, 0x2abc622ac35f50241f3652aa962d4b045c8ce1b4d3a77c51a5cae9995c6eeeb4, 0x2545b28d54fdcebe42f8a4562de1061eb216272889536260d5f32decdbc4c82d, 0x2854260e63dc45d22afd22d8c9fd8c22e1da68f4173a4028bb885bf7fbb4ade2, 0x95d54e568987ae7c379dce46d678537a26d61558a370609f491cfe778e8fb9c, 0x2ac03c440c8ae0f753a4f633e704bb41f8c751cc463b91976dc63157057cf8d2, 0xce597700fa4ef07ccefd26ea346c30618eb42bf9a4b7d791a957736798970be, 0x2c13a4027f4153b3680a29b7268e1eaf78ddeef9f8d1ac0866595cd9503b836, 0x21a643839be351a4f38fbbb173b5b0eb5ecac4f78b77f6830da680ef5aba11c2, 0x53b07c71cd864b2113abd0705fdf242cf3ca016b2ce545cd1877ab44ba35cca, 0x1889c70502e3edfb3f20c8b32fbedaad51fc6ad1caa14755c7edde52e1d4ba39, 0x16866b664aa3f628ce9e1a79887af71ff1bf20d4df6e707d51e05fec7b8edf61, 0xab47c201ad315c7220412e1c304b812546d4a3d84d0ff71c7a57018e7dc7834, 0x577bfc93b1ab50ec622257ceedb3d2f4a5486002f7581c9ff3cd22f3a5ddb65, 0x7900aa352bf959e718e5284a4485f241a74a0bb7f730166c297e448732d6ccb, 0x2635df956b7df3f7de298ce9e18d310907e65c1c96502c693d1be9554bab45f9, 0x2e7115f1d6bb75fd5adfc872613922aa172fad9a29483b4872e5fd21c8374306, 0x28e330b6e413acf334dbeaf1969d566977dca676b4618ac27a530b6c859e5728, 0x27e821c205286813e130ad991acbe2c71de552ceb2cc34ee727666f936b0e82e, 0x8222684d80154930f962ddf78b2c56568a59e5d9da21ae8f063adacc9c2c38b, 0xffb7cc3c05ed4a3084dbd743112c05f254fcf9b593abdb82e25dfc5b4db8fda, 0xd6e11d9b51ef8fa12b034fd87068fdc22f0a4a3f793dc6c9662eb9eb915d279, 0x2c5d6dde18d28b08d919f3981e5f27a99f2c10d9af52677d244ccf6480c6960c, 0x10582dfc5f5399c4c952550128efee21169a4727ed9e1c140b9a22db6ecbc0f9, 0x1c58fda68ba74bd534d519006cae71804c2e6074aba61d95f7d8ac84a3def0bf, 0x271044c8d54e1a643dc46ddb909ff4078e9534e8d23a8c2a1916c9c5c2b1d8cc, 0x186c5e24015fb0b6a140d7f5ecec132b14b85966768ce1b39c20365cd3f5d335, 0x1ef5281243bd23e1a1d3f0eaa8653e2a642556af81664859c816c5f69b1365ad, 0xe9af53215e2364935a0272589b5c3b0c80af154cfa6cf64969885d37cfa68b3, 0xc0a5c9bf118a07540485a024f1cf7c7cf0688827f6c1d6d93f6315c62a02337, 0x2752ea3cdf410169a2b9f7d940b9301f855cb888ff55dca8d5fa0f14ccfb4c6, 0x1f484d4e14af3b11cd257eb79fc52785fdcd8ff152dc56dc9f822475289e3d66, 0x18a42e21ac35ebf3034a6b7e836af6ba99686bc07b1ee828fd18ce264f98af14, 0x17bc4fcfe167ed740800167e4d386431ef1bdf24c6128a964c027aaf87922fa8, 0x2fc3b7b410acae015c637749d9fe90d89402b6b50c9d844775316c204bb4a3bc, 0x23050b3666768fa91186ced8876f0c35998af3ee48ffb141b841a792151e8e18, 0x91bb332b35d6e464789951159003f6882fc864a87bf52899711e84d7a696e7b, 0x2ee7bf6ceadb5749612d3f3237b181d839b32c66b51c3e0e518d6196e3fb1ad9, 0xe5037b387cddecb84346cb5c04ba1c9a7600253c75f28d14c938916803ca018, 0x1556d870d39bb506dbb69cdf14cc083080b8d81b1450048090cadd910ec7397e, 0x21994dd012c107a165f93ad7e28bcab73468645266ce123640cfaa8330db37eb, 0x2da94256d843094dd9bdbc75b6c88634cdaa76e6d2bb2c7a4b9c23260e28144e, 0xbe0a92edc48db09808d50a03956b3e847dda5481fae1dfd077d7821d9b537b1, 0x1d332c7d075cc815dd316307189d93e14f0bb9e201638579cef3fa74568b662e, 0x15a8d58dd7b443b1e047e330b99eb9007b48e5c1a48a65f04c2ba40e136ba98c, 0x15f0ba262ebc5d722d3cfe67bb7d2fc20375faf5cee78716a321ea37907c7942, 0x2cfb417b5ebbb0015efa9458687cd92cac12b9d78c640336eae91934fb36f1ea, 0xd331b322888532737741c8cb532728decddd7e7c3c5459d830a8ff4395b9dca, 0x188a4855919f14b790002d9bbacc7fc011980e3f5197e53c509b9b04d7023d5e, 0x8cee96a66c1ed7e3f978607c188fb906123d343f4bbf02d00920a66d243ea9f, 0x20b61c43e264decca5db37abfb717521e78ecf25d029bf4ba611426f1a82d558, 0x1b70bea273a40aaa74ced8369d5611aad3452804196ee87a3870450c22c1cd02, 0x24c234bd6c73e17254efab015050a01b7ac6dc82a3354d6e136a94f75a1a7796, 0x2a21a5594707eef1b1070ca39d553ec74f8fce88f64f5f494e3ca2b807a77047, 0x9cdcfd503958b901b3c6dbc1681386b7fd0e338313e3bde4ee4cc6907175f35, 0x37213fd6b9adf8b983606125320f73ec38b1e33deff6a0e719ea82fb5d15563, 0x2be5b55d83cc6fb32ec758e83ec576f521dcdb1da1374cc2ae0224725d6d5d85, 0x1f9b9850a392f6da10fd0088fd06054e43d5e204bae3ab38509dbfa188589300, 0x968a47a748db23b73e1a1039b2ab2533ba91a12ed80e30afe4754c03ca1caa3, 0x1a624785eae483bd8ef9d81afed0c8612bfe450a124e267dd83957abf6a3dd15, 0x25ac240c7126a642eeb1298bc19876d969d9cb5ed0952cd446eb548962bf1586, 0x27151bced14b6f53383bf4553bc9282c17dbbb8cb47c1e847ea89be43ec167f5, 0x1ece2bec2de7891272f8f2f11fca0c00caae162e3fdb06e0548a1fd905fdf49, 0x27e856df227cff7d93cf1d0c05a10d1849345e99d6956a6659ea11d7d7374c43, 0x1ba8591af1c58a45df09034774a836e315884127d62ba02b4e99157b62b8c467, 0x2f11fa9402c5853bd308181c6596dce77c95a431928d16b85340980da12e532f, 0x19dccdf36783961a18c8e432618fabdd0892cc17cbf38ebfce63a2bf846232ed, 0x1350eca5a8cbc2c53b6a9df1a39ac7d72f0183bff9fbfd01757f08768dd52d6d, 0x230585af7582b6a4dc662070eb37eb1c3578564f80a86702d5a046fe7b251272, 0x52a71b5daed70d11e7bb9ab1a6130cfbe019383dc14f99fe2b53108ef831183, 0x7851ddc73a2c6f97b8a08a05bd1de3dc88e04910bea0d837164f2c574c3d337, 0x69995287feef5bba996cbc5a831ba001095e26b3e6b5e35f9765fefdf460e8f, 0xa69204150bdc7bc73297aa4bf156b07fa581ba2def6924e2868c7dae84c74ab, 0x20fd9fbd1536a33deacdf27678b70436cb81705e267cdc3bcd6926ad26285114, 0x2eb1a2eaf15db5d578a921d8e77da62f9e62282bbb029f0cb241b6021364eb40, 0x51f55bc0974ccb75e69b79fd695fd54e210ad37034836b401f2f233979d5de5, 0xea1386d77c0f896d00ada2bf96303b17f1b4318a7dd5d959f3c8ab1c25dc3b9, 0x11e2fce0eb7e64e488e0a639a5f1dd20f1db91a1cdbc79f47111e0e0148b4c2f, 0x22633874fb5ae4774d1f02a955a7475f8e929ab6749a17cbcb0e12663eb9de8b, 0x1ee2613b8ed5faea8c3bb5f38f8e7427528e52b36a5cd114c8d8465bedd6213f, 0x1b3ef2535d759add05abf42ddde283129274a71318834b561b07e0b9895acb23, 0x24a084eac600612e07a30c5f1651b9843fbefe25e65077f1bbd4ed75e478bc35, 0x49c2e0e7e177a16668e8d6a2831d20bf52c915586b52be3a535c386e2e23fb0, 0x769d2b56d0d48053a2dbad1ddd11f7262f80f04bc7a8f61dd2c4a93615b609c, 0x1aa20a25e4526401305fb2432c897ce83c4e4daf9d4b6fc5609df0dd8d0c8279, 0x20214d534469f0969a8f57b36f6d6bb2125e2ea61b2126143cfc66f7377632ae, 0x2c25b9f5db0feefc72ea94da35fc305c712e1162b921c9594b8c9b3b9095345, 0x11d06d5cd8414889b209f08264e1f638b56befd0a7ad4d1cb91a87986426f3a2, 0x1118c6633adbbfa1f08b73dc28148ef5008128e94946e47df78e52b53a81813, 0x10cbd0a971243c100cfc3447d5987790b60420664da96477b29ed58159d3c0bb, 0x2d7defa56218b1d02e64b31e0d84fb39d4068e7fef2f8e47c173401d5a01be7c, 0x35bfa1a3f16472ad0964a6603d44cb70a930f4538ab235d5cb1d90e75a8a935, 0xa172329742ade46e7f37612e637f8a0262620ccd838892f3fcbce0f6340fff1, 0x2c58c487ea60769242d19dd8230a0e10a9b600a055416858160cab8996bd747d, 0x10753b36168ef4814cbce8a92176fe0d0429294a7bbf562599e90138972345d7, 0x5cab98dfb3270bc9f27c6151315ddb0af0b292642297fd763487949675ab3c3, 0x244babd314036a353068b387e78f064b6c3c21a1e4379c64034852528b8cc286, 0x189d6ea1975420c15108f928975eea4f635afe80fb1543ff6518c5dd989b4ef4, 0x2834b06e2f31e1c2e013b589c306629d588c9677ea3b4729da29e5b931727e11, 0x2ea65573cad7061d208bee93d6f72e79dfb7a9b0c58d1c3c43b295b7edbc050b, 0x2a8afaf324dca28c3319c642c939fee380fbb0992bd00c0d507bb244e79f3b64, 0x2700ca9644562122c6ec1339a9ebd06170fd8350ecd893f4c4b54ca714e8cca5, 0x88d20ba63d5235d169351e5ae5382a65d0a0e4542466625c496484e527caffd, 0x1e3b2b692746db2e3221d31c2c9d2af6cbae59cdea2df8c9d61d09cab543651c, 0x320140e2c3634e2bbc6eabd67e3150593409e17c8a8ba14d6ba10b48f57be7b, 0x25fcceae7afc449cf6fa958d7d01bb57c0cad966b89de9db049e4d99aa35c63c, 0x2d08ac7c3d1ef44252da3c40aaa7dc955760672fbbdabcac988f85dd7f61659e, 0x7723b7f34c31a1d58c5d67e8f0082a117f77b403f42383783ded75501288e21, 0x8f93f11a62858823b57ebe7bb4f2c7fdf0a99ad9ae526bc7565f7fcbed531dc, 0x2505c08966f418cbb7cbf186072cda3478ba030cc08a31d4dc8353f14f5fe9ce, 0x22730c77baceee5fa6c5607ecbebac0fbcca0a5faa48ab37d4f49e603f33c1e0, 0x2866da8f65cef794177ed99ca0e5e28c45e33f059a6fd8db8bbdd83f37b93ba7, 0x2cbbd169f4a32d679b818634b4018a00a213aab1df758cc0e5ed696914d2794b, 0x152d67da16d24a00a82991886c6e1841bb58f19c064618531f66feee723badfc, 0x64ebd9f00d3aa92502f6ddf8fee96e7a247af07493edff59a6473cf2b877b5b, 0x17bf7430be0ed0a5924ec6889b870e3a5ae1d005432e965597264457be3a920a, 0x2d8cd6c4dabfab46a079273c4b789b7921b68909a69dedfb64974cd1228f26a, 0x616e7fc01785aef16700dd740860e1445464ec05242217c1d7795fcfafed0be, 0x18d309277b33ca481301e0ca3d42a88033ea83fe6b9abe2c2e7d93061a31f3c9, 0x7524811ca357fc32cf3c5582cad662b040dcc15f0afa3e04550687031984655, 0x1ec065e0ec95640ef74fd337db8c6e0fd7a1414162d1db45bbe523b373941339, 0x2471756386b3496c2180e68c6ac6bd0842f8cf2024d6e519a37112e9c2b0115d, 0x15b16796e573ee84ab8676dac041a3d2b088bce5b17ef437b3dcc5965302bc70, 0x218e6f091731868afd5aca4beaf96fcfac98acaaa66d5738014f0139c02ffa42, 0x109fba9e59cf55203fe971dcf32608a57e45aad64a7c8dca57db4811dc17c808, 0x125a6c051a7816c5166bacb3647bf54f12ec2945ca6a51bc9df19051cef9b19e, 0x1b2e6621d9458cd5dcdc30e3eff2ffd34677b2dd8af74f4d742049e157d5ee1a, 0xee6a1864ab85f0cc60a19372b13b8d1671821a681cddf68dfd82a0e9acc72ca, 0x2c5ea8b8d22cf4ce55d4a3811ea4ace1daf2127a92c77bb3bca51e636c5dd5a3, 0x4769ebd949f424f925e09d2f1163a6602f26785f701a0f6e46eef91a79b2d81, 0x14ca5631f7309cdd27c353606e8ebbd48b911a239d86b45c5589bd5a9d5664f9, 0x17085e091ccb55cb01d45c2feba1c8c18ca380cf17615edd10d3fdb91040ecc5, 0x2b58062e06097f47843198458a974bc7ba88aaf01bbbfab7235cd990c3ec82ab, 0x5f19742b6b9cbf14b622e55b5bf45bc72639533c18c98b2dd811c4dd677ee49, 0x2af4cba34b3365d68f5b0775bdcecc6ec1f42972af48d64820eff166e68c4589, 0x304ef965cfc0cc4cdea00e9a2b8487dd791652baf6d9810a5efdae392c334ea2, 0xc6b70050e17d95eaae67e03b820be7bcf05e0e99c40c7ede3a4d69434c2ce4f, 0x152051567b1ed7d6f4d2864eaf1d3b052ec28037ce709adfcfec0dce364fae76, 0x196a7e50cb517e21769d1fdbeaa92abbc040c76404d7144554a4a88b27bd5a56, 0x1dba4d6d2eba84339bb2a7a32f9cc9787264acf687504ae4c69a8b1a296b9a0a, 0x114fb35839ddb57c3a833d40316eeb28e32221d34ff86ab96507ad755c4d375b, 0x152086d1247da80503965412bca5b020f0918e05fae4f40293c5c1356b015832, 0x248f8659574c27b349b97c3403dd5f08fcaafc9f606a59693b89d743ae952fef, 0x212124ced78bb0cd0b708d1f0dda3a8e4f5b42cb3246e7a64ecef935e5fbce2d, 0x9d68a717d8417864da716b3dc29a6aa6e2dfc0b661cc9526b66026a7c9e8b52, 0x1009d9033011387d7b59d758418ca3c0742dd6af7eca2e5e6889ac3651b32a01, 0x1dced90604d29cc66f5810108713c09579fafab7b3175b12f7540f1a03de6851, 0x12d425da9511657071f3700e73d3a357c1db3368aff5148d40d3b315c3cf4d50, 0x27bdc068f23f8f9287c8be55469809925dfe5226108913794b4782b07ff59b8, 0x7d909196d6cbd2091e7b66d1550e3772b360afa4f9646af879002bd20e674bb, 0x2c5408234e473efa7269604e73d12733713a47b552726332dfc58877bafb84f4, 0x991a9a7548e3c5c4f09473aac60815c6e04cbc7138bfc02d43346f46a5bcd21, 0xe6c6e47926d2386b0db74b20f6778c507bf92c3fe5ebc26327ef1bc5a9bd57e, 0x1db7d7f599538333bfdc1b9376b38e8cdba27e8c49bd819e08d28e132fff211, 0x14e0d2bbb5969c1e0f86805100c284d8f6f6c1c101e8e7239a38e3c7a006267c, 0x26ba784e04d92ef59d57a171138b2f2bbbf99cebb2d5bac21cd86c8af5106755, 0x7de069ebcd67dd5880d098549ad3e1cbbe74f219b8c53f8bd49166a9725f72c, 0x3028949b0dd33e015aa6b460691d837d8fb9b9d5e70877bd83df0300b4a0d843, 0xb5f2ccb84db3c03ee4842f663479d9b0a8cb08d3f1d7ed41069fe30120038f3, 0xf56a30dc396d6c1b178f692530945d187d69c0828141922f2923dfa4d93f821, 0x16a873c3f3cd80fd6a45e7826eca59151c03e4ea8c1777b20b4fbb42d7118f98, 0x227479dd4a5e86e44de806dfff98d05ee2c5148f5b42a5acd07747ac71c7b474, 0x247f177204c1391a4bb0241cf0d084ed79f81fb4049498c003ba1b225514994d, 0x1a7a0d3e02ddfd68639b98edcca6409b511a4c508aac4a3ee26decf3ab74118e, 0x6109074715f90196189de280af6d0c820c8e3862abd69a5d050932f442235f5, 0x112ef9d464e2ed0c3f34862cd955d29628c3116fe54520e76309b77ca91bc2fe, 0x52afd3488a875bc44e73c54eae6ac05cad2d7e19b480f50c2858b8ec5a4dbac, 0x7fea8911b7c2841f4f7bea4f3b7be7cb5710a624297be767b313447fb2a1f9d, 0x253b88bbf4610d15934d7e98f4a1303662f9cf547bb61fa5f1035b11837312e7, 0x10ef8f2a1e54a3e08d4b642a5b584207885166843709469691d3383502834a88, 0x2de738c01f72522b6982c758e01540c6d792040f3ea15285c7864e3bf92c8e35, 0x1869a05c2435f4ede2ca33fad840b07857efde65f8509325e06a06f89b3093f5, 0x44a3c589cff1b0095a3bba218c63c451998d5436243ba1e93f726dae82593eb, 0xedf15cc47ab50a92e54014b5643168988e253adae6f0551e239d265d10f1fcd, 0x1dde71a388e1a9cb075afd6b6a13354701e041fc3415b5d6b613541d4103f409, 0x13101734082cb23f9bd2657ecbc31debdebc886dcb5a15bbd8b120c8a945f82b, 0x25a3a7c128ac6ffddffec4d7a17cd3044ad0ab308b974260f083c39ff72937d5, 0xc5a938393016ffa071e3b9f2fe3c58ca3083967a294e62ed8be565724661b4b, 0x1b63a0bee07072dfb3a33c63fd00d2da4e682adadc666db1205326008cba6e17, 0x26f99a34fc19ea7dffe9c6ab96719b2cef9d38d41a209ebe74b51b2f8b0f60c8, 0x1f1884b1cf3fe36cc0e0aae88ac6686375ce66ad770087b66b2d1c401e4983bf, 0xd7f0e2206d6a092c502ca25b440455da98e69d7fd5e4e205c5177a8a4df812a, 0x184da09fd45fdba360861f125fb5390f5a476252fe71889582cd7b73da98050a, 0x1840781562955cc1a9035f8b1ba651c833b0719fe283333c249c8b263bb01573, 0x2d077d027f39896d9d8b1a619ea6063290da1477d06d6a244b48023b6f3cdc8, 0x2cba8f305b009310a36116769a2a17ff2230b4915e156c43c2b5d9c977813660, 0x1e1c46b068f4807d6832a968be9f79bcaa990b6493844ad724f8a8b37bb7921a, 0x21ad357404bb8cd9db5355e5cc479dc1aa1e48fc6c76f62f5d1ae768a0e1a419, 0xe19ce8b72c6453c73a3538e919f48d4eee11f6609b60cf430e14b74ceac5fe, 0xf89d945566a286b7bc63b937036d40fe58fff3b13a6fd1ea7676eb66194d06c, 0x15e6a57cbb53220803c4e91e066b483a318bab0be2119a8643ed1cecba61137d, 0x1c45c8841fd5d4e675a46c9911545c14e9e468ef83e1e7c6675e91703f0e2327, 0x10ea93f02575126c231458b20f4b77480a0f10f53cf4c5b6f1dbbbbfe8d88a01, 0x1bbb7784b1f4971b8b74b714d17266e3a45008805ac742477142767ad0c5ff1, 0x138941fb4f666acf374fcf0190a41cc86f9429386ad7ca204fdc2ca224c3405a, 0x2c8991fb3b6295cd67162631ec3491ef54fba71727c22957740552c825943423, 0xde66b24c1d4e2e56781bc629c1b3989d78dfad628716a843a32c5db418c7501, 0xe8b37c16fb6281255cb27790ac523f5ff5c15be286b1e82d973b4e0104bb2a5, 0xfb41067dfd9ee6e840b88280597d436a0cbd61502e06898cf8b5fed9289c85e, 0x119c19df693f80a7a7b0e64479a9a77ef4b8eb70d6bee07fbc33ef7acf857db, 0x2826c0eb3ae0b75c96cfc181797f6133d8434b812058bd1887e71aacbf095795, 0x1d138c8733414f701ebcd319a6858178037aab082b804e2143322a87b6477c76, 0x22e32c8a1a9e200d7e31d69e4277c3e679494b1d970e0c79217587e4955d7c07, 0x2d52b65582b83b5d13f288d67ace22c5c51f8a4f075b8e6d7660a660ad5cf6e7, 0x2e2e7048c0a0db8910e0827eadd124a35947cb26064a22e793b4d4ab6ab9021c, 0x234f9d96cf483333c13f5224a40dd495370dacb7b6799e3f9361e2ab893041c2, 0xbb3e00222cd3d72f5499a2749dd7e36c8e2d55e255fe81d758a107070ba481c, 0x199ae52b7547a3da5f54bd2b9ca9dc0f21d11594eb52a07907759b82eee76612, 0x1a3d8048dad09581c18d1ab2e10666d3eccd0769689d612199c26550f3a181b, 0x1666ba94ac2cb3a58c5cc86eec751353a14391b0e06fbe263851396decc0fd1b, 0x15c3034cd79cae75c00b7976817c5969598916ed56344727b811872af4042e8d, 0x86ac6932de61a9ce418b612502851e06d5d70f4dc3b1e1ed8ea2c6df75b8789, 0xf43a70c864e7a81e0576bb27764656141ab43b19925a1b4d3a1768bc722b72d, 0x1db3a2b7c6b538ad07068d97508df5ffb34a09ea1f98ed30399af2983fa145f4, 0x1b15391ca85237ee8ea48570d759416f1826aab34ea87d3a3cc3547d17e7dfd9, 0x263aaa9f9e83c255e67f9a09901feed268df56151e79df345426341e0f38f33, 0x2da84ec38f7707d5d71faeeaede793d990f04e8cdd016cbbf3bd65c129138213, 0x13ae9ded4812d1f4d28d379642ba7b79bb2d3eb81dcd223e8910c55e8f77be9e, 0x25b181c72550002c2b1304937efdc34a0d45e709511929cea060359fb523bf6a, 0x2d141f87778ebaf647f2da27abbe0504d46442838f3ae21aae9074583f6b64ba, 0x5cfb5698f68cf5130c14bfd4c87741a0b65e2c197f594831ca414ff53ef5505, 0xfba377e6949b3908154085c8457a2980cc5ea3472ec30e0996cc8dd9da31d9e, 0x2ea5bc22fd3e4ee8585ac883e574501215972b203e21d3cac33b4852d9b507b5, 0xdb2fe84aa7d137472e72b0ffbc7e76a76f9224fac1d1b3da6ee35a5c724f8db, 0x11c804a419c47dc73db1ab2682979afdb042c12ce349a00dfeda1c72f0a4db23, 0x1423df99c89efe43c3e80af699fefabb861fe0d8974624dfc1927d2776daf241, 0x2e07c1f81bba9f8e1bd8915787ca74c04607e83c308f4da253140de0e3cb4ee0, 0x1b945ccb17bc27e10a23926ca5537b49b28b63312b3278cd16db144ab27fa3ca, 0xae9821243e03b7ea9373b032275d32dd4cbabc93781f36d532b7cc9db7a575d, 0x18f2e62f9e91c3e399358234fa6a0c907c3f3541fc0ce8ef1b5ad135d41c4c02, 0x17d7aee292dba3de1943cf8334254f9754b17ad7a5a2c57230eef7e06c4049fd, 0xff75f8ff73a55d486beefd9f5d8bf6f6f9d31b10a0903b24f4a3bf2118f9836, 0x2f8219f3c7c148dcb2f38c697bffd3100e34b0ec8dcf6d7436de37e9dfc65a4e, 0x16ec1ee6a74f79ddd9d142216659d99b9123f7d789019ecb5cf3a043f7d820e6, 0xfe5612d8e5fe5ff4e224078cbf3907f25078d2604dbf20a6aeaf18b0216b57e, 0x80219777df47cea0bc385242c5263eae06b2a7eaaca605b7ddd32fe0b0cfc8d, 0x8e90c05a9091040815ec08eb142106a1b2c94eeed5132c637cf9c0c40403e77, 0x279d2ce8346731fdee7a49903b7e6ef1362c59970e31aaf01aac51dec7f9f026, 0x117e0047acd22b61fbf81e99cc13e2b9f1d8db8fb38378592d44372779bdf165, 0x2bc7053dc85295a51d0f8d051189da22f32f222487ec9ec39d5a17652d9411f, 0x790684b4d26b9a83225cf72e60c026432ca5378678eb8c744ddbb6e645fc010, 0x8cea9f02523e9dcb87709812e1f78683f373a33895774491c1d6072e3ab079d, 0x1a28f5548ebe2c210f3610ce30bff1cd5f0233fe045f0da2d2a7061f63ad35f3, 0x1551491aa0e035787242f5bf43519ad561b6601029c56fc863c63474cbc6713d, 0x2705e73556fd298b38cfe6b3d042e4e5f4b457e90e7e8b16a3c9b54b49c644f6, 0x19edb84862a4a113e372e01c3835b7167bd58d6edcb038078de507dc89472728, 0x938b1c265302b7e4148906fe0e90f9ade375510950d475224a0915dbd2a3429, 0x435d661e18d8bb28bba1a4648b73af64441623162e5b636ba1dfb7a7e887c08, 0x2ce71ce2431662911ea33f99ddd42227b1477573b261f9d38957f9c86286b2cc, 0x17c75da1521bd3f44b2ed39799b747fb4fd28038a87a50a6efd9bf39060f1df4, 0x2fa18e89595e69993eaa57f71aba15a8bb83e9a86c5daf770794567ff4ff187a, 0xa97b5f7307b9b6b4614dbdd9ca06eed80fa8ec636008628740f04673cccd983, 0x2fb02323a8db7ba7e3bea78652a3dd50fd90705cb65f2f99115ce510d1ee90da, 0x10984915fbcbcb2c7d051c06a00200823c6431435ff387788b87834b46a645f, 0x25faefb54ae7e8ac9b3516ed44536847045f98350fe8020edb24fd028cb95e74, 0x163e9a85805166386406aec43091656df8a354104960ac7097c85d2107dcff77, 0x2e01e39fdd209edd00393dbc792737828f81d0a25706436c45868a40c23fe53d, 0x1ee6ca0156eebed43a7f02726338c9259484634883e64cb6c34ff4b459dcfa61, 0x25effb4b84c2c0906ebb6571af7a151325c6ad696ac0ab5a7e7a34366a923f44, 0x90185086d0cfbdf941af09f6e85e6c9199da41c0b294c049e2143e2d1bf94c4, 0x196921a374020f2f7cf6bf76b7fd8dbaae06ceded49ff948268d3728d0baccbd, 0x2e30a88a9c1a48deb66bb1fe9232d73aecd2d81976822b2ed437aa9c11080577, 0x18fc95efb840dd52f4de54cd023b0b552d57f549acdc4f86c1635685225343cd, 0xbd2326b0caaea6d5141b3be470e865dae99d86dbe6bd7861a22ef6e2d95c08b, 0x4de1aa3fb9807b22fe3c503dcb0a58325340ea0b5a50702e62767018655a8c3, 0x279d21657b39b694181d5081827940f6e6e1271a084c55f42dfc737a187eb989, 0x2594a94215dcc6c73d64510bac3b30414abce18cdbfeb509afe6d70d3dc97a8b, 0x95142e3ce6e5fbdba9885833c614bbf459895b6cea10edfbadddb276ddd2920, 0x4f7c712281ecc56dbf8bbf95fc1af4690f419b84130342647be3ad1b6773261, 0x150c295bb04a6280a5cfaf70de3e998f8a42448b7a8ee56d1fcea8c515fce483, 0x40b073aea01b55948462b3c96965e070681ba42d92705beaba7ea9ce5983783, 0x285854aae042c3ea616da7b02a6b2ef30975aaa2a90aeb8713f189c4caa36c9e, 0xab00bbee202a51e42ec8fb9b5cb61f9165ceb652b6956c1205e8dd53bea3b04, 0x1152e1913091cde5f38a6bdf0a4eb0ebb501954b721f3859a0aa262cde13f80, 0x2df4a938e9488825979442d85dda528501171bd09b780d43d1b2e2532e8a4d15, 0x1d10433e676c08dc3ad49d71ac027dc4b2bc6f21a2fb3d37d7e9e95819279a77, 0x87e2ac12cd1267a049093f730c2a461aff6a429c231e5ffedb62cc52676df26, 0xf3769737a44340e6fc9fedbb6b760856826f7c3a6ca8b993fb004118718ac38, 0x29f6d54a21cc0209800ee613b44585252e7c35d3c0a4f00cf18a8220f36cf76f, 0x106dfd6a05f7c55004c6d0792728985e392d63c6d22e183b76c13cd4ee465e, 0x3024b6653dfd68a1ab85ed24f30bfb88690c50b9960daed59b460331f8e36e3e, 0x2f179ae3fa16736110c2911a504837d71c7cf5d27a4c83dc447a7ea54e9a89ff, 0x57740fb88ed21c6f4ad03ad49ab3386680d3d0fb5decc4dfe65e2c187b397bd, 0x157f8573cc1f9773b3852c965bb00bc1189bc83355c7d831f1c881006d3d2286, 0x21dae9de84c896fb3e060fe467c7dd0b7471e76e961a3b30d37644d20e8f449c, 0x2d76eba37f90108bb9dced3f9da1acad5a29d2a354edd54230afa9b76e4703c8, 0x2041ea40d491d2f1062862372715383db89750828052255b1e071f99ba360196, 0x25b939e2c40c6e075a42cb8968bbf928e3d6a8af8da4cc79c9bfc72d6821c673, 0x2ca8f0a159782d2ab2ff4ecd6edfb287ef6e5a1f20d50cf7a75a8b07605ce461, 0x8e18252ecd58de85a74fcf2a5dfd866d780e8b3f592153b7e7c04707d2f1ffb, 0xe742fa26b8408adabaa17ca7dca2bfc14f40e3aba46a2d6e85d3e3ba0c5767e, 0x28743cad3d872842ad23dae6978295d26179d81275e52dc30a7af80a3b3fda7f, 0x2b78a47772df0f8005e508cc47a3c2a37059fde340d3886c2eafe79aeafbe868, 0x16994b815229f66f90e88f89e047b4ecd3f91a57dd9ee5e9a56294c2f350af7b, 0xe0f16cd75041288520edb1897af5ab11b85a545f4d642ffb157f5772129430f, 0x1b01e8e91d773dbd4ac756122f8e79aa9f017da3e15d48656d07e98f9a73ef04, 0xd1f2525b6adf5013e9d76170afe6f51176a4497c1588c8be575c04e567d332d, 0xad15029458859dcffe10f316fdcc134527eab1f97c0a6b0994e2d16e3f45210, 0x2eef79034f8cc2ee04f0f188115c01e22b41d429feb2a66bc239361eea4af45c, 0x25e42a21e65e99f63f05b36cfc485e97e72de3aa38a8573d343f95ce50c62dad, 0x6c62c056404aa31061978613c9ba2a052ef8531eedd3263bcc34c4f166f7c8e, 0x17a698b583a769145e307795122804023f82be37618acdc120d41eedee9d4cfd, 0xe1cbcc11d65e21409282179563ab3e273859363b0bee9cff0681ce5a11f520c, 0x220b8ec07c64919136db6bffcbacd9bcbc2a560bfe98b02ca9d2a1c1620dd0ad, 0x1f7195b3bf189a997c2d4d7f8d107d91c2ad5352b63d111cf142505c2ea35645, 0x946e22a5fe1252cea749730aa63636b7f99680f6299a80249c399c38b566709, 0x24785875bdec9ee2dc76560daf9dc2b016472189b7b2a7d7dd99e86329313b5d, 0x24d6da0aff8453f029531e9a90cab696c4329fd05d5bc33ce3e949d2d35105ba, 0x195e3e21079ca38093bddbb11591cdbadaccecee91d44a9c797380fd2b701512, 0x1bff6b43a453e16b2b130323317ccf68c0116cc4e69908fc4feaadebc010209e, 0x73f9d5f52694d81ef62884fba9a31432e8c590087630266a86b89f3c0e9c78a, 0x2be3fe4dab84c18cce436f93d492a73d3335c21a6fb6f3c325c70f27ab0717e9, 0x280f758350e2ce22acc0220828c374113c0a04547216dec766b2669ed6874db5, 0x6a4b8aaa363261c2ba63fc31e73c4704152908250ebad77bd7902e381d5f251, 0x6118135c6b1997f96d30a6196877ee0a103713b91004027410a76dc5bdfdd5e, 0x1a89b2b10aba25ad34445917055b958f121305f7b31489f50eef474494c31c07, 0x2e34c3a24b90fa5afcb3b92b40591c3803921db4bb1475fd94984127afe1f4c0, 0x29f4cd64b7c9daa88c1e0cbe36c0b53840b9241af6be3fa3528cbd8495d89b76, 0x113034f899c9af84654ee734cf5907134128528f8ca2fc627261ade006dc5da4, 0xdd5e41e4d002d17fd303a182c7ce4da1c12c29e5245a94e678960f79a03c221, 0x9495239a4fed063a3c2928a42413f02cf9ae08868146f80054e6d5ff531cb67, 0x15486ff36b7325528afe532981984b6c06a63a0b6e25b1fb271f63b8ca6e8d82, 0x2d8aae1d082a60db6b3b1aa0b244929ce37c13927e8d61fb0e918f01a14e4835, 0x94ebb5501dae50b3d868311700fb837a5c69e9bd0900903601616f693545e0, 0x1fdaffacadac41b6154b16c9aa2c8859c42fd8da9083d2ac07cccb26e690c7e2, 0xb7584cee1c78e903017e3a2e83e815830db9118a5b4779b594d764aa5b241c9, 0x1412e854da8a4c9e0a11d27ff0c4609bd728f2e0d566a56cc2936f370c40c875, 0x3d34dbc2e6f77a1d12aedfa5e11de27cc991c49edfb396ee74e269ef5da2981, 0x2aedd5795046dbc6c913783882d4a45463950d108a7e6910532ba1a1f4d317c3, 0xa5dce1ec5c7d1991d275f91ed2fea3793edc4afa7d3b171d6ca2d5ec880e283, 0x158e7fc9d1596cf04bac80a49f4a93445b37178a9e5a76be24d6c708cd38959e, 0x8d73061d983610d3093e05e80f0494cec6e6a9752f85e7f604b4e65e6fa595e, 0x2eb16d92356a9ce2c7372015b5f16ab18974df29cf53f17e1f641d5360d7f209, 0x2e9bfb1c072ffa1f1448bcf3cb189e3c8d0454857a93f2db4c1f08f66506d6d4, 0x4da3ae9ccf23c44250ee9f32095b2d3758c3223aab85cd4e21791287baa4d08, 0x164495749ccd7eae205ca14f4882b6d5a9f84d70a2eb1265e7e3619322726e5d, 0x1c81b3933e302e2a23052a1ede80c8edc7a0830fc90d4f967c13e8fa199dba98, 0xde77902a2da45cf6727a6e8790b4b387d26bbe3d3a10f8f1af7d71be82acebb, 0xfbc8f1f39fa56f501d218cc4283d9f4f7c5758bf121ae97978a0546b275a224, 0x1b158898ddeaf57075ac5a033d069543ffd9226ec1fc9f5fe8cd17428e9f9c25, 0x10a9ba7d8fc36249b71ce38282c550047c0723d4324859b8f33c07233157f7d0, 0x1e62b7c53f510e60c1ccb7826515c00d62eb21aee00b0a12bbed33f3f0a41013, 0x21e2a30973e601469bd38f69e6bfe5fc6b1f2c546a298dbe4b759eec183997e8, 0x1f4256c012bdb73cc6324b6059b196f6607c81eebe0cefce37fbae343a0db862, 0x283815406e80c945ab6a80b4b7903592e3325feffff20d60df1eecc01c310936, 0xcb4ce0de05ffede6708a7bb1424540d7811962447dea07bbd6b3e24ffcff3f9, 0x23f9dadf82c522df3d0b41e31a7f6ba53230df9046b8a338d3b37127cbad9683, 0x211306e19fb65ae10286d8b629d4cc7bf2145ab76ce513d4afcb5d058a5cd059, 0x26f18bb09eefa70257d9406c53b1703ed3202ee7ee291ff66b080757c8bcabc1, 0x2d69b46423fe79aa1ca07dc9a2406f2424577e3bfafff58ea504c104ec4f7dc7, 0x7465ba33026ed23dccf76d5215c11ffc8c750a30b5d9d39cb2ad3196d2c7e32, 0xe4146dee78ceba688773810e5327946ae20f047ac4fab2cc45a390b4d46d64b, 0x1624e960b1dc56e5876ea8b2e2115cdb5f60a6889863457fffaeeac02066dd85, 0x1fd0e3ae2786ca41e655bf8e0247a719ebfdf38df0ef7f012ee5a5f9358d7ac4, 0x2052c36e6b89e1840e6d174c96649a3d2e7b50f2558cbf862a05c36b177696a1, 0x12c7be80bf7ff89d69d62f5c25d1cb829f598187578d2fd1158a47f3dc9b187d, 0x1e71226367cf0e67f9ee1e5bb9bcec098a0224003bc724f044ada63f0dc88482, 0x1b1aefde27d4009da9ca9dd14d8d9c546a7c84e6747a8b1fe2a561d62d4732f9, 0x28fb6fbe80d161b9d19d64c68bfd2467db0399459e4e008699bba3b0901f5b4f, 0x27034c9a18b55f5259805f96d8a1d9b7716fb1c87571f71f137b02314914ce19, 0x2e6ade49ee96d2b99cec94c7ab90989cafd911d9d74f6b969130dc9f6102c8ae, 0x1efaca3d5ae87a5f68d4f3114902e480a9416d69332914e0c3ccfaa25e819665, 0x1dbfa12bb1e7b0cf39195ab98b2f4fe7b0b523c43f61778b2ad38e17b660b8e0, 0x1d21adc595bb3462aa395e9dacc67153a5ac4e2a81c8ba83fe337e64d9981dca, 0x183a031f65283a2c57aa61b93f71f8ea2aa7ea9881b0a4c8a7eb62a99c62a4e0, 0x5505d703f7fffd323dc5679872d9bbfde81a58ce5a2c4fa004a1fb57005b3f6, 0x2fa94b93636e509a5fbbd374f111a54974eae4dfa857bc927d463fd02c665b2d, 0x2f1824efee6b90c7288dbcc4174d2eeb29168ad468c9f3433d183d38fdbb60d8, 0x2f8b0043c7ab7df1252a365a6536b5ee4586d79bf4edd4ce4d4ea1236a77d294, 0x2a066fa811754a4c8df61a3eeee92a7a80420f92541d0dcb06eada3127f4b346, 0x2dd483975bf2124fa85dca41749188c4f74da8127ecefbe78dd972b7e9d9e144, 0x3875224d3d0b40a164746fa30f7835ed6dcbce9d23dc4a3c41e65e0a70f7a8c, 0x29848fee626508de066e7046d93ce678c736cbfe64839b0fe774772c6514c1c6, 0x28a7d8aeabfc1efaa515c8550248e34412a27e7fa6cbd78d20b0067c12567a3b, 0x19507b15686e20fe2b1f98c9a1e495b36ffc24dc149ad29f233961e6415f92b7, 0xa61b968f505e0704be2f676b267ea44908d929ff8639bdc4144945b0075cb95, 0x10975a7f7060b302abc4d5cd2e8d2b5d330d42b31bd5c8a478d7a76859059f5a, 0x23d1ef3b42d0c153d621634f43b24232bf75c90f73c5bc30b85fbe18b4c89a2c, 0x15b66bd3ea7986c7d2964117894f3c43fe02b8256d2c9c185dcb7f8c63b7aa74, 0x9e46a8cefa89c5ca6a5b961fbd945f07255af54c53f732d32619442b8fdf8e4, 0xe72db48726c3049121cbfbd1c083459c0a633cd69538cb633b879e4af6c6bd9, 0x16f05309db91b39d38acfc1debd39a91cc444330c3ed445812142016a64d7846, 0x6fffdeeb381cbf39795f83c9d69c8b3accb2d87fd6ce4270f5a6606dd0cdfc5, 0x1a252b1f347d8d894af61bb2f75c65cf5fca1a2211de1f905cf39fa6d384e77d, 0x231561bb687a5aa8aaf7e1c595bf155ad2d93e0922dab327fb9c1f27877210ed, 0xf8d4030eac93ec6da79f6304cda6b04be32f036e80b42addaa351e7007913d, 0x2f49ddf565cb5324e9d3dd48bb57022ccb7b479be123e003de3f2cca6cdc80d2, 0x1dfee8987696c32de30440637725865531f9d7c3d76fee9811656a435bf0684e, 0x58217bdeb3065546892cceae218f7fdf3a43c2383ceef12387fc29d4dc74380, 0x5f842392a9a07d4c7d70f1ca1f72b9e3b5cf5633e199ebf54ba2423560d4f55, 0x188b0807b79105dcbd5c36ecc676c2fee603aea072b7712f2ebb69b9d1752e4b, 0x1103f6ea09cae621ec6f695e07929a36037c52efcbb493f10af13cdb0055548e, 0x1a40f8ba3192f0c929248b4aed619c81a22f8a0bf03745d15372be437b0fc08c, 0x8823b7625f84a5f5c9a8891cbf3dc7a3477da215200ba420e51821645f9d2f, 0x52a494af3ecdef5031d87994f264905d25fc6c6267b6f7de4435bc6161f3f32, 0xfc8cd19ee31da018d0c6c59856e6ba369a5429231113dff4c8e53d50f1577be, 0xbece88708ff447f261035600d99b11389aa0725b446c9e8d54a02e8ff2de3c0, 0x2bc2fc2f7c93245f1f5ed0ab6c4cdfb771544f8dfeca02250d9ca1bf6dc2ef92, 0x22b16f8325f2a2c69907af42680101e4f86de80d901bb6970310dfa1bf805fd6, 0x2782823d5188cf5d414c280cfd8dec816ae7ff36c0fdacd870ae6449f25a6cb6, 0x12da3c90acc4189b45b06a1f741598dfb2d9c24f459120debece5c5fe23db5bf, 0x2d81a5f9fa4173f58f754643481d08089726bac7bb7078f4111b55106b5adf0b, 0x286dbc990140046e1e2637885d4d2904875f0afa51219ab2b758fc32cb600c6f, 0x20e7a3674a066766d04226362e73219b54ca6a4258260375e8397f8fc115197d, 0x2289f3227f4ceebae0c1dc514de4c642f15314eae937b39a3c3c12476913fcdf, 0x213251e30a761990f27fa1970426f9d44a093dd04524016706a1180753aa4616, 0x91655612a93f5be3cd31db248c7b627a2df2aafa1ef69f7f27659c13f3019ee, 0x1af60faf34b05755f1941195b02e6463bb42df76c12b10f14f8b162506b8d5e9, 0x21b41d0effd2b0440c0d3b70123b7731903bfb46db3c7a23acff016eaf107fd8, 0x16a0876c96d45b59dde82c8f1e1022c5cad31638c4e38cece5b7a56c408d84b4, 0x185329f9e4aa85d49d42a62ab4f641d62c5fdede17015a7d79f3164b690f6407, 0x123f208db0c4ef54956335d16ae7152534d2d8ba793d601f15524969639ea3e1, 0x1aa5654278de22380da76be7885381c1784c80ef4f4bb032acd13b09739c263a, 0x955b8a1677a5b6310ad8e0492e82d1044a14c78ca87d1e30e0d7f3316ea6ce8, 0xc7fefd4edd4ba7d92756b5173928904d18f9b6fe995a575f0e6a6e88f7c0e58, 0x116d188997eec6a1e2af2aec8a5db1ebc5cfa588fbe5490f08ded1503ecafb06, 0x258d2eed2c2de759f0b394b6a3ccd2d96e28b10018f3e7f45393ac8ffe947ea6, 0x229de8c2965aeac1aa7edb78fbfb5d7fb12e7fd7ffe6b9b3afb5e888349a6c44, 0xb1fb0feafe98d6cf6372170d4c595adda71702c0e9d41c6ca1a03d7518f83ab, 0x285a05be9b2dfd8af2d0f28f2e32f5cce6b153d880d8acf6906780ca636c4cbb, 0x1d8240e9902394edee2b76099db03d74dff9185434f3a4e4fe8575969ce4f295, 0x2160be8233ce1b0b331989349ec4bd9b12486448510831e6414678b312d57f93, 0x2929b839d44bd2b3fc5bf2cc815ee7910db996cd5b5dff426c8f18a5adab52fe, 0x7d0d43c3f633701e5f0dead5516e94b91f97725e46982d199de03345920ec08, 0xb99c27daff90cc053b37132622fddc5fd52bcebac1270b1cce378a7f02393ef, 0x2e952dfcc924c08102cca7e9565eedfece78965083b853ac1f4128c7f3d78691, 0x2190b77f963391066d6d26f3d74620ec35e501376b5299cd3f7e9c23b55cca5f, 0x5be919c52d2f1dc0d0b0d161f7ba7195510208aaebb5dceb0815f2a91168652, 0xb4e4b3ca8aa834622cbfffb76e6f30f9df997dcbf93df22a7becc8ff9a0672f, 0x1620522a88c3b531c45d51e5363f94f9333582e5f6ee1c3cb76408d116144fd4, 0xf442ea26883f8e188715f5841a690cb2b38e479d8ad7074e893ef19e3c7390a, 0x1a855bfbe80a7886ad81ddf0e7bedd80c1e0e4d1bb03130e03035d53b59ba710, 0x6a93868612233e3d6098de0b8126649036cc14b1ce3c7b19149a17caa20b66d, 0x671424962e923da926612e9c0661665c4a67c524267c45a83dee528130d4c44, 0xb119799f6ee67e2775cd4a71a8c5d455b82426e00ae6cecea32b5f4483b6d45, 0x26d468d55dc31cd5ea1416dca0f7ea5190642b77cafa7741f1233213796c165b, 0x276fcfe17ef821818010494be0aed24abc1a41eaca531c7f5d2f7129eae80325, 0x238d40c836db7215bea1455cc92b6d73f5100568d71a6d1e81abefc18c21e93b, 0x64c4fd1c50ef587dfc7dcaccd4ab7ad5c7cdb0230cc8e0e34d76ce399fb49b9, 0x3718669f16fe30adc38474a75406af29431ecb57f3db1ba7b66997b07b2a425, 0x19f104f90bbc03762d621a274a325c49f5073fc50c47db885e9456662421098f, 0x2486c93effa24890bea4ef9ae6cb9b8f65fd7591bd84d535b760229c0ce27ba7, 0x29ef7d3ea32d9632269fb022937c78a91d7bcaa063a818c5924b7b92d01ecbf5, 0x26d91e7cce1d8deeabc8d7c549cbb1beff0c152cb8819e8684cf20504a0252f7, 0x248d08993b5ebb254ec885af2a38d3e415c4ad154eb53616b9b09c3934ad167, 0x20ae46ea2b701d379bca7431dcd231d5a0538a7df6d25dfde9ccd7dd02518db0, 0xa484d6f4b86578d49193e5c0248680b9614950d8e391f527df0f478ec51db0c, 0x6717f5b869d2656c2b35c01e28c56972b04bf97eca77613e5b8ca92bcf84f3e, 0x3783c713038e54892dd2a76fccf0119a329d633ac533e811e511817c4c4a350, 0xf13bbfec1c7fa9b9412355719d79deb7376afde0da0e70e2cb31f752e4f9d34, 0x251adccce5317c9893770f1694a37887cfeb26f1faacf9bfff6caec93a6182a0, 0xf825a06fc69017ca9e572c732e7aa8595be6f6caaa1fdc983b9af1284f63dbf, 0xa3cf2fb30ad2c7358975d96ffb895de8fdcd61f74ebb24d3f1cd6d251eba933, 0x251b2e061b12c56019ec04c54d7446c13bbd7df46d1fd9123d6f91b9bf77a42, 0x2951702dfa126f50ba6d0463be4ca34e12ec8de2818075fb043ca471bcc2d379, 0x182c9f08809a2953e6465ccd361b57ca28a529bb951a355643b7089eab715698, 0xdea1f640e09dcd69fb450088cdb061df4630db6292f1d6085c11d5ae6b6f850, 0x157410ebe0e8a0c81ec70253bc16022ddabcce7070c509e78aa1bb6f49e17c6d, 0x117b09b34738397c6163ef647d60969d6f797cfe1f4b4a55b59490aa6ff558ab, 0x15737e5a5b31340f4aec578a73d86e4da61cbd4d1a54bb5fb9fac3678a762fe7, 0x196b0672513f279f5db200d1264c03c1ec5f0be000255a3d256edc3eb713f115, 0xbbdce038ba792300cdb18e689d2e0678a095e69e10a3a56bb6f2b18c076f698, 0x8e4fb5e144e2d867c55ccb2cc02c666060be0ebc3f6faa98b40974a53dcdac6, 0x254cc53ae8aedc8323b546a40516f9ad27a2ac1afef9dae8bda7d56a2d6baa68, 0x1a2c40f1984dd2338de7281020ad784dfd936ca376a8bf3491ca61cb00287204, 0xb02a14f5ed5fbe30f98b6bbee9ba25f3794994280c633b7dc03a3a9bf532100, 0x15228b44db9915e56aef3fd0e965f2bd0581663dcdc77e5b6a9869480744160e, 0x24ef8fa23231f34c98b1e19c0e2b2d2532ea1048f0a45c3ec605cca741766317, 0x25cd05a9267e21e2d0b57f22fc07ca332738a6e94fde2ec72f766b7bdd4566ac, 0xceea6b6d86dde8d6313f7d6e5199ed23a6636984c8bae0113adad98acf71272, 0x2263c0701b49306df1d77f6f1a14726d2b6ef465bde4b950492ea402f9014657, 0x2fb656f4df02841248f98a4630369337e443d1816e16a3c1f084c38f005ee10e, 0xe6f9efeb418fa0b4016757e12e6414760bcd4598e641d894aa245c6f3a96619, 0x2496c73995124ae0044151bb698f5765f8272f388d7b512ea9436e2cdbb8314, 0xdf3c49bc65b7087becb1940994f1cdcebb16f4f21121a3f662679e361bd695f, 0x2343f6b80186e6caea2ad4df26c37628aaff7131761a180f7ae28b9fbb4b312, 0x276b8652e6133ec164810dafbaa40ce8fc3a30f78266d8e7c61b2fb0be8546e7, 0x2bf09a235c89febe7e56f002df7b004214bf00da1194018467909ead95ea85fd, 0x1ef9064c20f83e8c7581b609ac572bdcf4b6e1fb368cabc0dbff08ad95b73e73, 0x210b418e297eee3da4e80b3c937e1906f5b0f55dac023e27646bc1dcb8cf8e83, 0x2ca9e6ee5998c2ad06753624075de0771a7d019e89a6d6f76aff5993665beebd, 0x174ae2a5db32dca4d56226575f1e5c4fb0ffea7ee7764b1f51ddc7f5256c86a0, 0x1862319cee8de3ee4d638995f693f324546a5235d22952cdef52040d8bbd9025, 0x1221906c99798cdeb66c50f140b8b579e032128cce09179bb263390ecaf9cd49, 0x84dd25a4d141a723b29c69cde8e0bbb53d031926fb0d14d09137e3f8a122f1f, 0x29341ad04e73a6e69d3ac654d4450a386ed2c7947b01769ed324d6e331381411, 0x1aab0dc965161f77eef8d0fb4e72e46bfdf6e3d718eac4e5cea176339993dc08, 0x1852c126862b742ffe3e568fe27ace0b675fd5df36155a66099985c700d26984, 0x26eabee5c1a5c1b0fbe224177ac7a16e8f0d7b48c4efb62eed96a931202f0c4, 0x268b607a75498aa86a1eb65db5fa72a54b41c3e8ed9ca5a707d76113bcdaa492, 0x10a5051f064fedc0bfc0ec7b6be56addf94d1077ddbf456a180f3a9bd5029beb, 0x2c27938ce4e1e0f98d5e53359bceca5a9c22066cb3dd0f765471dd85ff641214, 0x60390a2034599638ed0dbc2903cecdf490f1c20d605f62b7f95bafbd367a3ff, 0x2109e7dc4aaf6cb2a13ff62bc3cbd0ebcd3ebdf022638f5e480d010beffec7cb, 0x106959e10ce6819bdaf48cd5c19432d35ac8a167282b44cb0a6703eebe3ed2c, 0x276acf8bce26b9321591bc588392605b50df7f766be90c8317a19ee93c8dcb40, 0x2625cb1be09ff63c5e0340798d10b774c04321d22340e5ee8d2cc4aea3dc924b, 0x175223b56bbc74a46feb991a4fc55f02fad1ac9bafc75c76ca3db3a69ddcff22, 0x22cd6e17bd1426b13e742213606f1558d5619bae25fec69be0df6c31ea6b9970, 0x33307917f2f058ae6295611e36036aabdb91a0fb9f3a4bad3e6afdf283b1836, 0xc74e27d536a6274a8ab91df7afb9d4ebf944c68157c4135a81993632ba4114b, 0x11b2212a08cb877ccb3b4a5639ce7825ef74875fb213f0761369ca5d87a9a809, 0x2c8c8d42080e2e9615d4c8dc0f20c3c3005dceb1697d9623ebceeb638ba6eef8, 0xd61124d06cd75baa08d463b9a3a3a1cd1fa3bf6ca508399111e206dc19f7be5, 0x18a8cce9e7aa6df3d5eb35406b0cd46b87e4b08f8fdc991e91fb5924a07340c0, 0x1453226c75742b840fb71f151e3e5346648b9a07fc10aac31485d7c0f071a80, 0xeb05f52067935d0b5517addb97ad9134f66b921c80fbe68548e0c08cfb8e60d, 0x17883a0fafa37d03fbe3da640fdcdf02fea822bcf612d7e82e0217d38db4020a, 0x7516cbb3f67dbbc050bd2ec21b18bb9d0ea9971770595a85c4863633b0e19c7, 0x1f86ef9471443b26a59da67e1c2a223e457baeeaff2ae9f0090c550c30bfe2d3, 0xb84ec6355cbfb43ab69709d4fed906685f02613d9b48612f38cde33c69e9f03, 0x1ac016b40d30d26723c5bdb4e9d2fc71a1b9ef8065cd08ccef66ca98ce789730, 0x10b2fa89de4545606176a004568cea6c3381be9612e83815467cc4bfaeb585f1, 0xbf5674a5ea1ce6fd4cb75ce7f26710e510639b34354e53ca2e6631b404d5e8, 0x2fe1439993bd33783ba21c5ec1f28dab97147a3e8664866dd04668e04c0137b8, 0x2f403be7d38ca7336768a3a9c7f656692853628f4378a74a52df4896fdcc4034, 0xe1c171baa0ba3e825d242d1d70454b833c3e23fe89e7e223d48decd8817db94, 0x172fc861c822a0459d27e0783fc603409f835913f73b71d51ff31a62f6e4fb87, 0x1bb9e2454a33c3c08cbe31dd75b33d9d6642cd9b0a978c0251f5b91f0823523c, 0x29293f8422d4f96e3dc694f4d99846ccd6cd5b4a78662625efc72034308d4c3a, 0x29b378f2446a9a31f37d475c830690532994edb64baa43794e13f1d9c6949d13, 0x18a82c74bad8aac7b761794760e090acf55a8f95556f2aacfc20fd98c19616e, 0x2c1fc04ded87e37d9f1c639ced48dd8c9e46618cf49218637db54755921b1644, 0x29ea0e1e015e5caeb3ff1ce6d2772502e7778bcfa3dc0377cad7d5efe674b2be, 0x2a1753c6a4c7c43716ce3371f140a65903d228d5939dea928ec37968610f3349, 0x2d94aa3bb5498d0d77ef1efc5950519b1029350d4746394aa68e8526c09e1df, 0x8f269084ee637620a11780eabd8e8f96c2b04b8db6027ee88a7be850485dbf0, 0x3abf553fb5a4b9d5093d3b5f898a111a4261c2419f3e055060dfb45d82e7db2, 0x1b9d84d189c5a22bc9be2926623361fc6be7c714d079536427fc7a70bfbcbbb0, 0x23afc200414f23e7496b4046294db690a60bcf5cb72c41a61ec7351365c885c1, 0x26a5ce6ea63bfd9e6e1a37318938d4dda0dcd5fe9d6c2acf1abdd27ce1453799, 0x227fc0412f71fbe4902252237859f0b8a694990316918ad670c3454ef255f9ce, 0xc6b448a7deae48afbfcf34cb758d847568f75d7249dea4da09a90f96c672bec, 0x218c92e39e62dfc119c4cb2ded9512dc217a9907a9a8b0edb96a275169f8e9d9, 0x106bf92a017c308f0f726df3d0515aa6feec1c18020c380333cf76c25016bba5, 0x1f283fea17244f043b7c35ea1e71931649cf7000692546ac543a65b18ca3adaa, 0x1fc5f58e5a06e1c70ebf3fd2a2c8dffe7bdf2c2c179b817fc1f41d1a26ee7dae, 0x22d0d77f0ae4cd9396cfcd8a27a246303cec70fedd54beef6dd86c91938fd560, 0x1ce511212d8688537a5e039957276e9935b3e8d5bd47045c6d5835108eec5f0d, 0x1c83ca5df6ac477ae74236c49f9309ddf52a4290f9c7c1d3092c113012d1c3f6, 0x2e72da0e1d1d1cacc95f8a913d87a10688af0ad11294b350cee6d128a97442ee, 0x455ee8e7552be76b8e7c2597d97871d6102b49eb2cf1ddb6f681b7e05b0d0fc, 0x107863daf4cac318dd06ab14f132159794902e3b8da171b8848d3eda04e6c449, 0x132abaf80e33ac48982da9d5d2fe91191f17f1910fbdc06731717b6bc63a9d8, 0x134e4567b290ed94c47b163fa304ac8d14f00f9e26375f6299a846770f4aac21, 0xe6c1008a6d6cf304a1dd9e6194a360c1e9aa6d765a2e5328a1be2b5235164fb, 0x2f8dbc0f86cd3308a3d598a9343d638a3c2f56e9736e91f0f77d508bfd3828a2, 0x1eeda9a9c6d8a03c3cd9efd1bea7e46840d6c70d7fa82e085bae67347e5da7d1, 0x1e2bdca3589d22bc09315622837feb89557205a87714cd8011fb26dba1ae0fc4, 0x1feb959112175ba6f2abd9d6051f3aff32a9c4da459fc5f3baa166b7e01204a5, 0x1b6a4bf2fb32031b9837654b1fba8aca04b6472a91d05f96320bb5bdd3add66f, 0xbc2076260db797f04ef2fa60c6cf5d014d897d3202be009fc5d8ea60dc18cbc, 0x39a5ff324caa9dcd65b8c44bdd1d423b6c02e4050ad8ae931ade6dbb2273cc5, 0x1e50c1f7a5bd8a96614ea267e0c22039cb4708670638b16e4c4e6b4ba088ff35, 0x24315140db1e03d34a9e890d85fb3786861adf648212141be6f031edd51b8c0a, 0x12cb6f35a18d9485c72a073c4f9037dd664d98d011e892bfa06df8bea2bb5dd, 0x149a528e7303119ce066de9da4177803d774e3f1b2c6dabe9edffb3951481615, 0x990738ffecc6f8dc0e6b5269bd1dde74c6f6afd47779a119d8c963d5b65d33, 0x15b319e4f51ac8931ede6542ff983cb2ed3bf30772e681bade4cbd64659fc741, 0x1553343f95b1ff226a6d8532af3e489d305a08e8d5c532787d351a5c30b426f0, 0x124d40c154d4454d10e254fce373986e8a2ca1b43dd221b55a8fb8d19c5a2314, 0x8632672fa4236aca43f4dfea0508cb6d3895dbfef58c5f80f65ea0f48c17a03, 0x18ed4202e081efeb7107021aecb706f76f7466e5e36101fd92674c690bda36a9, 0x22b62d63e4daa7c6674dc97f43d7ec63fa9cfe047ead601eba36fd375d840091, 0x1f76ba188448c2dc50cfe2ab65caa6462866c5e31bca72d12cd7dc1be7ec16d5, 0x259b4968f9e4c3288590bb521b2bef5f3bb1b30a728acd45627eba45d73260dd, 0x1a1af2418b1ecd4ebad24c5a54adccd009072a2b7edbac04a0803870fcdf21d1, 0x13c488efb576d98b2f58c265a0d76d450c74c0105d225a6b111808cfcf13e8f7, 0x2e0278933d94b8434c52a364e5aa39d4c02e268295819bb0a4c999b15fe36beb, 0x26fc6a0f560e5781202e95e5866e679ea3aa4a76cd8bd4fe67550bb4e6c1db59, 0x2d7ce0354e6a457ed5d3621afb91732d02e5c99248786be8ba0c51da68fe9488, 0x2de1db6dab7e00b81838596cce66e8bb0aa26989a69386ce5061560f2693cfd7, 0x2e306809073d4a00babe836e6fe48eea8e4fa13b9932c928641fabad4944f587, 0x21b9bc5ba7bde0787a20a8aa9ef9a17d56ae2afc1d7bd7a2ada77506d16b66f7, 0x37e12238029fbbd0ef48a32577480a4d9f663ae39a0e3b6c6ad0f8c3914c711, 0x62340efa1a3061910fec854ff5fa9037ddd749d9ffbd5a6280e9498bb7b9e9c, 0x28e2ec6752d07e64574e4e92409b417686f725127f1564d1646c4ff44beb9dec, 0x1081db39ef41961aac8cfdafb8c4785a847ca3348a9b6eaf5a95e0ff4f3c4541, 0xac03c48add6876ea8b8475ce16d306f80aea6229d08b3c986662fbbb7a22370, 0x9941366c57343c57df860782d53fe8adc2a75da2d0f174364a055aa7ea07d8e, 0xdc938da60ab9182c7121c8aa04c1d955c1f729b7ea6bbd8c37ba58b74bb4dce, 0x7426bd12d4769e174840d4a3a64b40541e85ed86dd21ff5d71be7d7eba930eb, 0x2ca34511539337cf05471caa3ac6604ef0705b3d2e4874db17877f6a3a2d666b, 0x23db1c118022fca90dfc9a2abf1186aac09c22372b5a6814835458d33c1833a9, 0x282b59962607ed3c33a9f9a36899a24920768e679c43b319c781acc020c68558, 0x1cec719a4e8fdb8383d544623cfb2ecf5c087ade03a12cc202060ddf23baa05e, 0x279d1490e81ceeb73bcce66e0a6dd98443b711ab1317a31ea2c17718c534ea41, 0x168da84ebb303fa935e70e85321b10b67607392561e6ffba3364f888d2a715a5, 0x164c7be1367b220daa33b5f8f637e9200c43c9223fd71c41fb9830287caf3502, 0x1c09e997ba2bd1625852c50e1d6abebb6ec6c61b20d1cc91b015084942162bcf, 0x2ec385a2ef59f594167112b1491d5877520634bb30d00dc682d089ee458336c5, 0xcfa9efe4507963806d38e2464287368238b2f90e13ae6e520ec5f1e5da1ae83, 0x22f8fee0b3132a953bb0f4d4acc621b5a534403d922f9bf5a22e512cc0c103b9, 0x14473dd3650a7bf140743b43c5832193823e2506c60db669d71c63fc7cbb42be, 0x16f91395a42f68a912148920e5b9c30b536e84f15ca7b509e115e33a08df45c6, 0xd9f494ee675c250cbdff49cbd786036d899117513b160c0271c8ba6faf30da4, 0xbf36d4c6fff4101d84dd07cf6d0a9c9e5ab346d5f14c9185af3db3e13d697fa, 0x23452880a7cb59d393e5980266f1e752c686b57a87f041f75ef1318932577905, 0x305f2a14df1590baa4d62da4c168423625e3e721f20c0c21a0fb45ceca2f57f6, 0x1947f0175a8a9f3be490f60388486781533ac0bff5b8730a08b435f8a3407acd, 0x2de417a960b566abcf86d9abf49ad41144c3b6110deb4f47ea362257345e748b, 0x13b887c77592f15dae0d20fa25330e19201d5572df244b98dc2b03bc0683bea3, 0x97b35dd0b26e46805e16fd0490ce0560916e49ef1ebca21dabb4abf2c445370, 0x237a037ad96a360aed5937d3cce38ed91e58917b143f17233bc2d75456dd4151, 0x18cdc0365a8dfabcfb0494270af4822c29a6d9124e8c190a9c0b4826774adb46, 0x163428bf966085965901613a1cded9f28d62a74d001e6684bc3f6a47a8b3bf6b, 0x1dae0d15fa1822a5e59b940d81b3af27a5bd3f7dd508167ea6065b6d49c332df, 0x2add9c74cf22d1e4927fac6754b5cbcc172d4adc75ac1fec05ff8fca0d977dd, 0x1edb562e5b4376324a0b647b90690fe3364078dc212de0ad36f5fb26d14f67df, 0x301dda97e290a7a01ec100e59b59d78fe4021973af1d9e7d101231ed8fe9a1f7, 0x170a115e7fb0e76a4edb05ac080dd24ddb5c27c0c94b3b36ef5e6ec54eb98da1, 0x2976381557759f24da99faee2d6c5059bee939a66fb321b9fb2a609e4d47e9f4, 0x858c7c6f9fec77cc7b6c2a5df2dd6312140713f97cc7c8503b4d7c6c81effa6, 0x12557c612c0f7718ec112701d8057a1dc301ccc30b2c8475a46bcad3514d39a6, 0x1ab063ffdffa216a5bce2900f37d819f2d75e6f00c67ce024ba3f832de64dcb6, 0x28493d04672068c6a6e94f79cb1af1d4152b823546363589499c0a141bd2a580, 0x23ef9e5d4688380ddf2c16c0d08a831237ee58775797c67d95c6e0d8d8af345, 0x1093325100722f8836caf30bee53c0ef14eb18410bf915570b327ffd9464a5c1, 0x1705479cf3bdbbaf78d4f103d38eb47413c9335478003810893f35259dde8d55, 0x896c2b79cfdda5eb7f6f9ede3ab477ceee2b38b068174f15a3b37bb8b348e6, 0x149f13bc3e4e2b0515b378a2747dfba90f7d5c7731e59e9f36bde3f04eb50cb2, 0x2e14222448be50c068ecfebf70944b593540c7295ca0e47f2bb7f63199b8712e, 0x1e22c0396024ba3f6db181ac92b229a5187187033b138fb27a1cf7f6d87050d3, 0x2c5a1e453406fcda5d58614353f0a29842fb54af88ec4b73f7778563e05e07c6, 0x2d08dae6f1fb7e0250a660e71b1cd31853c227b188d87559216af1c465d8abee, 0x215533a77776226664118a8081d87e212a1250766139ea38c769f93ca2b4d7b3, 0x1cbbbb26f991a721c7bdf835ec9d1ee0c074092fcdbf0079e4df3ac287292edd, 0x8f57bdc3c7c95681f005500427ad5399259f69104c22206aec2f99122924e8e, 0x1b45938c7b84f0176f33520321500d1297cf97aa6699664fdb8ccd75ed39912e, 0x2aeb209044868ca84487b7916e6b4033ee6cbef726e269d0e916ac2cfd3fbade, 0x27635bd2ae7e0cacaff0b836596607a792403dba10ac3706c9e11977403a3eb2, 0x22e593b7a67935027938149bf16fce07fe9e726055fc0cdd07e7eaa17fe57301, 0x1795962bb5100236a183de49169d6b83a427edebd23711b89694da83cbd087c7, 0x77fc8d7cd9adbc283c25321bf37598cdf28827ed35707cf4887fce4707c437, 0xae5b494d166f6a32442d1d0bd59b65ecb7ad8f6571b77486a45ecd827dd1280, 0x2924229b6d648184fe63719ada7041e69272cdfe895455d77f01634a8b892c87, 0x51e840903ddabdbf22103674933685142981c0852a6ca6af0c8d15b068716d5, 0xfc508b7e620bb6c47a85971bfcbe28df62619c5309685d0a0a6adf3c8bf2f84, 0x19f7621bbd659b27d189bb32010b95fc2bd877392e2b56afb558ac5fc0f0f22c, 0x303e98ee35bfcad292680a7956e0b932f7c572c0a131adec5006d8f298b721bb, 0x1a78253e57f825b0cbc742d87923b27c51f4a531d1235a8a901d997e31b2ea07, 0x15e220939ba64b3a3ab29debf3b0884a4c4385a74d845e20e3449e7fa2f39320, 0x160486b6e621dfa0e90123a4e43fd69221ec1b0ec73d196476b504bccd290b94, 0x2beeb42404db8ab5e279624bacdb614b21b5ae386f2c2a34a798feca76311006, 0x24b407500416ffb0459b1db9740670bdb8be8adbb4fd5af8fe9c4b5ec021f0e1, 0x7f5fdae988285c49bcffff23fc1123baeb103bffc97df6839a0c3506b7c042b, 0x2ce9b5a08decce4b853e67d28af6eb4c755c7bee8190d7806af042759a399503, 0x1daadc911c3ec3b8e5f42cb123017f1fbf16e4aa2e32de94b018128845bfd022, 0x1ff80b169617b7ee5aaefbee67aa64bd64dd14ed8edae148f99a16e3f2205651, 0x2aff68cd38d188b8ab85c008f300c50882498b5068d3cd3b82b5ae023bfc6ee9, 0x114d0b3f54f14de45cc4db5a1feb1c4750ea0247d8f24e8f6f472d92eb7086df, 0x12b607578c2d349b69e0f756850dcc21258f85ae8d8caa8a3a021cf8d02abb9c, 0x14c692ebcd07fcef55092bbe950589f47dfec7ec4f3a42944b0442690795a054, 0x2229dbdfb92ae7eb8344eb56d746d07067637d75ffa439edb3d75a8b08199f20, 0x16f4648ac47c197fc572f58351e4b00773ad9a2bcad04ac0f873a556b6ecf6be, 0x12d90d55c8d3ec184dd04f5c6aeb639bea70a7e3d013fcb17437eba662122ff6, 0x4e2c49756b8b5ac26af9d939411caf87f15626ec4436deebc7dc0749045216f, 0x21917d723a33db266b07f81948955c45dd507857e9e5981831d35c56dbd0bb36, 0xd13b46aa1b41168f81b4d236512268c23e7bfc4108948b5e9f3a5f5ee0c2661, 0x17bd731275d602d17ca1b8ec47cb12df1a4bcbb9e3b02a26f86a08b2eef1fb70, 0x240ee601a6823ec698a4bc774e6dafc2f3d1cec2c5c89f5bd13629bdc692745, 0x2663ff9d0eaa6e910593d11022d3c77b877a3bed8d007f6fc207a8ad75bf252c, 0x2c45b53fa72d7a0d7a244ab3ab0b41fc40e9cc38cbbe294e8c84a72c7c3fbe7, 0x10bb8a7531ab05d22872880f96834d23a31937623df3fd2953885abddd1222b7, 0x2222950c8a1ccc1c2122a353d1482744d42e61254dd653bd25ae69d2ba79b031, 0x2c3d3eb720537d2dde7bfb8ef6265d26c9d6d918e37f2e97030fbd6b04457db4, 0x539a696e15198169314296de56dc874312e19e5b3518ef5d50a72cf98a30895, 0x25e2a5fe1f155a2eeeaf50d01664f96f7d6772b108ac5c4cbfa5ef5a1fcd5ad1, 0x2f5d3e87df6904abd454efca9cc30f154164220c9e3fef27e1812e0870b90fc5, 0xdee20e4731c0e7542e4e543e8be6c2ede71d6eaa821596e4fc9e68e89dc300e, 0x61442c13b9d1fb339615cd8afc0bc9e11be741cbfcbd2b3a92194034e9d2e54, 0x23a56185e12d6230a0ebaf7cd4a01cd18410d3d2ca991f79af5716fe22993123, 0x3344b7b9adb15a3b7c3d64fe1eec35342202ee3c4a36db2d49e81e5174235bc, 0x284b751ed61d484ba2b5940a1a1ee1ec536d392b113d06db4995b08ab661e675, 0x1701ad26a42de77f4d58a4c8191f9d4730309c5f4bcd0c6dc3a0aab396340820, 0x27cadda519a8370108d7aa6e9102f6b29e8fa2386cc0296593f2f63449ff3d4b, 0x2626d61cb110bb03b32712d59f0e3b1b2f5b9059eb994807b267e4ad261ed696, 0x1cf3330897c54f25f15f5e8b8da57bed0865f3fa841ec48441a9f0457915138e, 0x1b5bcce9d699e55a490d3d86e8c92c83a7256a7feb9fd8af6c84d68e148f64e, 0x2a175105d15ba3fecf5bcb2746b3c81fc8ca468d1d4aa999fbbaa8d8112026ef, 0x20a2382295eca0a61c888cef81115ae0637d7ec792d30eca6a0f298a77f9b26b, 0x51549bb9adbce26e4b218b29ca79e221cb691c9ab5b2786239ef8126bad2e51, 0x81ca5349e64d60bca080bfc534c8b30b18bea4309cf02f44c71185fe688e079, 0x285a400d61a5cbd6ca7baa7c3c9aca5503b17fd702e00420bce7332382c0b82d, 0x4e1bf8c955bc3c8708262e3ff148bea268adb662ac2459479e6af2e73440b21, 0xbbe19ac4f5c67e9eec32c9e6b7dd7bc8059c91f501b2f26a92b30bc268b0b4b, 0x2724ac58e1ea4df19e6644b8e7b7665d9248d34ffbbf4c4ca8934c608d2e8f6a, 0x446788d95426afea830d1a6ca8d2d085bfb4330cb2514dffd60a9ab70fff709, 0xe1ecf26c286c86abd910c2b37ac40bfc0e65cb2914269a6a6aaec5cdff5758f, 0x29a267dc9f3d12d601a849148a2449103f25713083b1611c386d7d0c05ea4ba3, 0x1dc34a60e783b5daf42125586ea2a5b49dc2cbeb9d2b90ba881c34ceb99d2d3b, 0x2b9fce58534bf4a486c3220f0ff9026f578ca9c435d8321024d10eec82be4e5b, 0x2fd9c97f01054fe61ca5e07e3681c1dd9a9d1f8ba630dd24ca5a344c3d666d19, 0x4e6a7146c2ac015037f0a82c1bc746bfb469cec9fee37f1b708239f433e647, 0xf5beba2020afde73013b7efe0c1384762db8612dae058d0f849c7383c07943c, 0x1c5e1e6ef1be1aaf4b6e0d32d590dc5b249e1b1bbcf7d05d3e60c63e0a18667e, 0x95675c6e1e8f6daa8dd42060883a7e9795f1bf881095e98497d33fd5c8cfa79, 0x60093cc9e1f54f7bba74af718e19a10f033198c22d21f3ee80271258099dccc, 0x2c44a35ca8e24a9f5093ce1cb92c8d0a49c5337cc3601c44e4f12e044ace0dc1, 0x3e89623477c5f1365bba16ecb1a8a5a70e3d5c83d50f30715a4074343e68f68, 0x1925fd586e678334d1618a7563499f6b4d001cbf3afb202328435f2d49cf734a, 0x1a187d62deb639b820168e8b725a76c96e556a6e90304a1aca7f1971057719bb, 0x17238dde447d9bc6cab663957ff54c74b47d53bad425dc3bc11482ad4484aa0e, 0x2d7a0593a56bd337e7eae8a984181a77465891cb699d069efbbce87113570291, 0x278387c4eeee6ace12f06531a312b777895ecb43495bf90a740b5ff258a733af, 0x181ae209709983bd903f41b57eeea056849f4a86d3d79e12892a45250e01f478, 0x2867934ebe66c335663b038c9622b41cb6bf88402c049e91801d416d73441a68, 0x1651870d1a0d7d05a218d811e464fc4767e798061515e43be016c6672b4db55, 0xf17095f8a2b21edd50126d275134f29cfb911a7846d5cf2da795be0c1a70024, 0xf29ea40097b34f39d01cd889e6319731da77302171713e2990e838edcb51ce8, 0x34503418f27ccfbdc0ee2529112d5768087367386315b530a2d9a052b608901, 0x2da658aeea1db7b2066cc982a3a4a62fc22eea96a956b8c8d4f6b9f169bf34f6, 0x99891e8f2205b9edb734fb0bc6c8e14d4cf2eb7850a5496ffb44dacfbee6877, 0x22b28527a9e27d65b7d9d425f4b2f4d57bcdc390089d3ab210cf46373565b251, 0x24ac41c21e032f1205f48938a1ba892716ae8d4c7230864b86f3b75576d249fa, 0xefde17c56189b5dc8dd3fc9d4796eefc7dd52347c0dd3ad06538c2cbccd8601, 0x1f321a1be55e4b41c5d5a9985d450f6c23a2db580cde1fd17df1ea16f393998, 0x1284635e8aa17e34bab161fc58a3e85ec269123593797a44622f6bc5b14a028a, 0x18403a5edf30cb8680f7eb86264aa0efc6422ea6f34efe55f9783bb6bccaaf5c, 0x29ad7c5e7c5ee93c961d4b670c2998047174bbfa7edcfe28b2b4d19f3c95d995, 0x2685b8dec7109c008c4eb559aef8b289648738087770d65a8a4f61d933309ce1, 0x6d1a1bca7522d697a93b448ac11d95972e2737c9f6da9789408ef4a701c03e0, 0x159f8629446b261b17f2bba98679cd215ff18a8e22a0addadcaa084ca728be2c, 0x2100c1605b40e1644c527571d1f2a268d17a89c1b0274fde3c1856768e134361, 0x14cd583763c5aaa5965a6cd810d3aa708ea1b01e865ad84926b6dd8a0c297f3a, 0x2f9afdf2575f844497ccf724cdc060155b29e2f452c95006bfe54d4402068272, 0xb6ce3f06fc23b61e6949086a27891cb2132730d5d976c4d036c7e5aa960ecd2, 0x2096a4ace19cc7c0d94c97584f8bd1e1aa0f38a05ba444b158c0a4f33def65fa, 0x1742909d20f9f17efb5c6ce8b23f6b85f7db0e01111ad80e910da7387926bec3, 0x133c486c3be9d399176c89777872f6f65cc4bfa41a00b11a2b07db79541a4d9d, 0x60b5bc9b94f45495d6e3fad5ef7c20c1d304c3d0b5dbfe930c8ae22233fc358, 0x16c0f928676951faebb1a97f70dd86bb2439c4fadeb26028d69f33107949dcac, 0x457f42dbda7cb38de3369bad13b68321762477158c3d9b2edc65731d2b0c43e, 0x5bc53f4bf388b5f477d5bf8c5de1e7f38ef0f94c775d737dfbcfe40a7fcca47, 0x20d057e30e2563d7dbc5d2641226c6f6000bcb549e7dcdb9b7df819ffd10bcdb, 0x16f0574e7c13b41c5ececc36f9590719c31f29435a736c33ad9ac1afb9287583, 0x1b9629d5678b18eca5f9c5244adbc287bf1b1a89468e549d1765835db5fdce7e, 0x27d80f156488fd903d07d2c64460dd644d47db5973d0c736d914e3fa60fdbb1e, 0x21197bb3fd8b66d8735019cdd7911cfceaba63b49dcd07910e48c993fe79d950, 0x28f5f49728da96532a66a2d377eb299de91cc1d78701d44a0a5a5cc67ddebf9e, 0x165bbce0d62d6841124276f53cb28883ac5e7ecc12d12514e2feb2e19b7913f5, 0x14937807a2d9d72d2234699c5f3b12f1b72e282b216fae910db56f68cada4bf7, 0x7142fc4901f0e214ec4c74f1685c35b0485516b7b827d75ea1b801e78f0445d, 0x2714d6a77ac0ac766c4da2cf468c59fcc7be39c93129b9d927c2abd6843bba53, 0x1d3110379d97c5ca70da7b048a8bc859587af977b5fbb83eaf0f951b1db2cc69, 0x122f9b480060c35e6b1b0bb0212291b0adbe2719c660eab107abd5e632e2b96e, 0x2815f76f3eeca94b8f2c42982cf182c937af5efbc802621c4ad9087603e5b5b, 0x228acef677466bbce8160bd59c938c5d3400c24a10d1a3cf145519ce1397904b, 0x2f6f0800c73e0b58c4e31639c1d98e57aa1d7b38f24198ddab4d3bdad8b1b1d2, 0x12dcb00b96e9729e3e440eeab56d23b49592c8d306826ee18efc8f7fb11fcd3d, 0x14c934fddb9e93c1b539ff3c72692317d0c365fd7a727f2b0d40e0442ee6cd82, 0x1f5b48fbb10cea0ef59ad9b12483ed7be5c601513b0ccce1cda3a80c45a80c62, 0x768ab8aa5cd040e5ee5de5261110d22bbbd30c0b5d9ca3d2b075ab0b0de8f38, 0x2b84fe02c304f24fadc1edc0691f5bffb0501f7be8a381d099a67a9b7a870347, 0x1827d1191b15dcf51a200bd968f5ca9cd1f96c3fd79edd645406ca0cad18251c, 0x16950a06b92b5485ef759d0a43945c48231b0ffde5b2281ef87eca0180bfadd, 0x211297da4d70cf7d43f3ccd70a88c15224cf043f6faea68a74d6fe282a831607, 0xa181217d1315fc3fecf5e801814b4060a742f8186893db95f39ff21721e4d85, 0x286058ed6304f12c9d7b6053e6d2279d34a0c187f029810854c809486d834444, 0x2cd0a562132678f5f840cda24da4d3060639841f53c603b1a7ad459f81ddf9a9, 0x21ce26e8e7c83045d9e79428cd905ad489dfbe75cac1fe58540867c86ef30135, 0x14addc67a9e923ff890ed279b6a29656b1145ee2a213e3c067578c17758c517, 0xafab4df7911d1154f9b5b9f9d44d08c2ce948d0e92a06e3a466c1293618db80, 0x756ddc46866ba28ae20299eac58c3d58d07c0c68f84fed9cbe306a0b9a00228, 0x15ea177d8bc1f254c3d290e72d8ebe6f9e5f672ec4fa5bb53bfeafbd30c41227, 0x12d41992accc7258671e1ea6167ebb3dc99fe6275c38f12fb7fcc994e3263025, 0x570a07021e7f0c979ae47d42f9e3e371249eb2a583b7060822d834e689cf8ee, 0x21b6e9c4d6dc7798292e4900ac89f5ba6dddc3d27bbb50c45f7ef63f63e6d70a, 0xbd7383dae8fd3f1af1696a4973bac5a34a01c54adc73f1aeffd5f31f01fc1f3, 0x11a866fd59e5ba1d90c39c5a4a415ec8303611f3450d52f0487aa7acc82dee9d, 0x2e330e0fb2955d8473ad9e1ba6233fdaf44fdd2fa188d4a4aed15c82979b33d0, 0x2ec61414765244f6b467c5f24e442c939c04c3811b99def64d52b1a4f17d9dab, 0x137a770838d8523704e776827dc372e55a90f20ba2dd51320c0ac783b023967b, 0x1d6ae5237bba6b6e32a89f30200200af5dcaf294019868e4e152b332765e0c86, 0x1f9037f9189a53ad5773c913e88ae7910fd020299ac394ee2e4d703b62fa69de, 0x2c6012259c33281c77d02c61bf2b4b3db3b33146557747746c9db1eabbb7cf7d, 0x1217df830ec5644575209a75abdc35fa606b271775f46edb7b7742b573d289eb, 0x1d39b721d48d3be9d3d5155c58c545485e71d003f19a9fc0c663fff57f8fcbd3, 0x144ef6b529a19c55c07e41d2859d3df72b0f756026d79f32eeb1dae57227c237, 0x2d266907d986d7e07303e2eb45b6620d01644cb8c381ea3d1738d7674728efd4, 0x1b31b63b9c97363652e64ce04b844efc6a63b122f164fd3d2f87d49d4fb0fe66, 0x1a8c452a31afdc62a25380d738c6cf4e5841c5620dab19410228094537ecf537, 0xd9d810fc7da5931c7a4907976b7b77fb68ce7fa860435910ca346aaa8b2aca6, 0x15e7308841e82cb44ad00ba4aef9a4241004f8adf496819032375a10fecdc8a5, 0x2e17f718ae9f7897e72b481f0c779a84c41bfacedb13e09530a7d16fe355f765, 0x127e7ffc6ff8ba194c9422ed54f61b63e58c7ae6729280d1b6e1e881d4d02fa3, 0xc730999ebdac150b6d5e7fa69d47f090863fab10d1949911a00156d328593f2, 0x111418254b9d16ef8d649c5a2fc4136ac5762191ef61f1ef46d35ef199f92a27, 0xd0e3232f7be8a95699b9bd11508fe495e026daabb9efc935ee7c4b754bc846, 0x25130e977ec4f6beb4ae4dbf64f196f48d60f80bf80c8d5f228118383790c927, 0xcbd22ca70300072163ec1b61ac95a45e959f6a6843d1f7a8fef6b5b290db4ca, 0xc4e5c71b46e2663bc89392eb5775c7769c080551d2228d8103e545548b5812c, 0x763b55731d105220bdbbed3e0f3d8dc921b4aba2d5bf2d5995317a39d43a3d1, 0x2e578b9c3527502c2cf248f9d25e724b252b1fea5d30b96840b142b066acf145, 0x2d7262bd89e73f64f7850e56ab934537f62cafaf511614bc8869875e33a69381, 0x233e5ef397661c73433fac490b72a375f31c6f6774dd69330033873c59a8db85, 0x2047881d542bbf974b9e9e9201453c82b5744730ee78d2fc226bf73dc724bfb8, 0x1392e09d8e3d6943778f5023ac577ed58573640dfa8cfb2261dee56f020cae02, 0x113ce5641e8c08401edbf8e40a58f7f198486c943d988b571265da3b80098b29, 0x6fe34aee96332c0dbaa756704f0acca6fd488b7a1a424bc50759ad66df3ecf6, 0x210eeda90df0688f37ee7f4db012fa7051daafd3d4e62a8a75aad73ca0c45808, 0x28f55311ca526e39e26e38e2065861f3cec1e628de46f4356441c8ecdb716178, 0xfb3a80a4b528a8955142e642194ac4a64f5b345c86e0ccf70250016052d9532, 0x1f678a57a75775bbb3ca95f5dec0761bb71ab147df107fa75f43aaf930aea3a5, 0x73ee51a98aea4e9ce5ddef9961b599770e580dee5cb29161bf81c0aa74ba6c3, 0x1236c1a9259acec50a04f193506918990da1bcc9f23bafc774803adea417e9b6, 0x169ab9a5835557f518a17756db5575e9a8273112f54b1f63479d261aad5d780a, 0x223dc979f2833569c24130f59936a05daaa49b610c7af1df373c81ad41876f07, 0x2a7e07c42b264f8847508f7767fad20b7e85338a7cc7b8db9cf0615a614b2a7c, 0x2d374c9ec1482f4d7b0cf45b5f6ae5b09f9b4c5e0d3e428646822ffc583320b2, 0x17722a6c97af3611c31e2e9c8a7c1be2cf1b1e67920cc61925228bb6b1719fcc, 0x1bec21bd2b79bf0aab824d2c73439bf306979950789c762d3f246ef172665c6c, 0x1e4f5c4c15166b2b0d0f2e1243ce5e4d7df0e4086f1b6c13c24760c23b3d2b94, 0x1b266d6a03fe6a667e5bbbaed2407aca042fc65ff587a37459242e347da908ab, 0xf82ebb4a3a2d9c061231d072974da7867464d45a092c369337d6f7f38f19d4f, 0x35f0f510df053ad98d957cd63f2c511acb8d63f8ee734d9b9cd9d3cda717c55, 0x239e2246410f90abaadc256d0ad649458d8a2f3a98b680bdc8648328706e59d0, 0x230a64e0e39531bab69e8378bec5ecd45dd04f7b91a264d4b852b17050a2fe7d, 0x201d93592e63dd8ed97eda0c1ef8f54ae33556e80ba51ec6c7d4ef5376da2669, 0x1bfe78c50d0b855aa69885e63537eecb984c18e2c9ffdf6f76a0d38cd8aa24a0, 0x3029708c7f3b5bafc5c0ddcd865d174e1b9ec7126ad730c124274c5627b8bfbe, 0x15a0692e27780cc154dcfb7bcca7d8c69d613ed71ac739e88ccad5311d419393, 0x158580885b4521fab1f59255bc74ac46dcbc6f67e4c5bbe3c0407f6e79f99663, 0x22e542709e136b18fda8d1c59e5df8a9efcf226296ce6b99f0c5a4c6d8c5bf53, 0x984d184c20909b189b56d89e1fe31074b711b106813e31a430f9234845fc8, 0x260bb2c2f561af7b4bba3c23af14460e63fef91913779d6ab8780093af2e76c8, 0x26e2ea372b49821ae56bbe19786ebf21c4326c188c47b70f47b2d120765cae, 0xb6c4d9d36fac30339d96876a3040224baf38b59f96fd0aa02aea30ae1a2f4d5, 0x2cf5fc3d75ef42b5b3743bfabc21490bab9a8bd9d38286f8d6ec65b3c13753f3, 0x846aa6aa21f18c74000f044143fa266ff1e7be7bdf600be16ce4fdc40ff1e62, 0x2f8d0ec8cf06bdb3e4c638733894d5d0a95204d648fbceada053acd9d3ba40, 0x1ce8ff9b74b79c4cea0bcdd58063f744db9630f3bf5963f1cbdd959f61126f87, 0x17d79111e385452e615c442c6ef083333a8a9e08628bbe1e84f4dee795dc1cd, 0x27d064dfb09c51348c9692abe74e7db7d899b06d63af1036ab74953c08b3c55c, 0x146874a68df33461692546b88bc079d85961ea462f0c4817e5121d74e2bf2f53, 0x52b6352c27d080dcf5d1e50b8770c1bf6cfde559b24e7dfdd17d373e9a94852, 0x1e7438946d79cd191bef0f79ab4f9604669367572252eb82cb0f3b19d4691159, 0x4709da1736faef43d616d59fe1010c92e91e1410e5dd9ac376efc7386702426, 0x28381d4a02a8a55fb06bb696c5e7ec20b36362f885b753b1ddc517db813f62fc, 0x160ecf90b4e27a49d3f40b2cbe9f0a6ad7fba8256b9a52fb4cbfff1507a47113, 0x30e521d91a1e1f8836f39b27733745fdf96d0867bbfd6ccaabcc94735a4704b, 0x2b66af33183aa4e53cfb665216f86b458fd3e909d9a3b03758bad9e44657c43a, 0x1e8516b0a2276dcba92d8b88d6fd8f9b04d61ab367a21058ca5bc8a752aabb53, 0x2b2172b73311ff4eebdf6b89af516d2ae0b8ab75b8adf8044eb7e20d511826b8, 0x64c2e0636845a3b22912c8baa94c39e14e7df6bb6d52cb8914521bab14371e6, 0x1bd4f8967e443e8efe5a18601bfed7d2bd47b34c60dff0ac964d6a4eb059b417, 0x4efc234a1736354be10620eadb0fafbf030092e0f16f539eda958274d543430, 0x2f42fc1f05d90dbce413777f74a353c57e8e6632d30e28aaebde88b878df46db, 0xa3fdc6b2d46b0047731f5994f193b35fd23e6d4d4906d0622be96f29d9b5369, 0xa9a381a6f2be5b71450314f356fcceeff031aa46a27c92ceced2cebb547d960, 0x2bf2a0d3ac00be9e5bc060a39053d85f4515d3ecc6ee6d9925c557eb3ffa487a, 0x149cea4acc9d345af9baa0b0aa9dbb3a275341487b4809a972d4ca49fd02cfa0, 0x2ead343a42b0ea570e1b35af19c93b0c25f50f1503cf4a637dbb9bcb58a0bf21, 0x1c12759c6c33c9cbf6ad891adb1cc2ef432de342518651f8b1577394d7527edf, 0x1619230feafc8101f6bc79b2c7204eb8a8b083a38c0d4bae74b31fcd353d879b, 0x2bdc4bb87fececa61ace09b0abe8b6dd75cfaf7ba591f02eeb5635808ecdb46e, 0x1d833c7135d27610e6972fdf005780ae41f0f98e36b6251978b6bf95d7df6a3d, 0x1ff7a459526e796396fcca196dd04f81ba3401fec67b6b6d83422e987782009d, 0x2440fbb4876cf36a771ae13594f31b06f3ba1748ccb06f3a16a97f94d8d66b28, 0x10e5d84b11ab864879fed067da2804f75c9a75273911cded8bb551cff3ebb3e6, 0x2e56c1830fe663703064d0f77480bc78b4f1d17939629fea2e9e39284f3f6262, 0xa099027ca6f5c10087a2f4b38caddb366b98cc4dd0ea74f08819e75029f46f5, 0x1a97468d8d9b841a57dec26dd4f17af8602de695fc539d284ee78ff852949904, 0x394a6458349a524f4995c77b6b7f9ce6455a2162f1374383187a751a908358d, 0x1216cf8f079a098852635296432f576a48c6dcdefaac70bd63c0f86d79de9591, 0x21c53a9ee1d8f71099fd185abe9772623343b8ba65e3f969ab665cc58c0a6003, 0xd00e1ec990ebd5225c709906332ec218459d452a34560c000a4141fe92a1275, 0x79036df6b30a36b4f6a52cc876b33ec8cc13beed3e49d996bc31130e9942fd9, 0x7316c90d57097c21407e647c1290a42d5766d43a8f324733420cabdacc16580, 0x2caa85f3b8132001bb0fcf4114d84dba8d6ac61c96a21f3195d74803857085b3, 0x1a5b32a122696df0430fce233abfe21fcd11dd0731f969f95f2e9243fdd98df5, 0x1d46a76334170cf0b58ba0cdd75b31f83b3ad2bc79f7c8c930a5eacb0ba02e1a, 0xd99bf048437a3cc71ea6998f890a532ab3a12024e230e8536d8a8bef084e956, 0x1afc2f4c8ba126e304c61726fec22341f447302a246b922e339cd87bf2def560, 0x1c9f11e8631cd4664da9bcf45bdec1d92ba81407e71321c727b14c4c53ff491c, 0x199268e3ac14b60c2a29efe18ea87ec108721eb881f6a49e9d6ba1a1dd94d3e0, 0x22c335d47bf6718031e83de42d47ab805bdce03e3eacb2ee8a5dd88caf5d5657, 0x1160bf99f0f4ec07b8ef2d15be5a3a8d1cfa192e406bbef5ed8dd5fb75db41b9, 0x2254cd32fd4087b71387dac3554cfc9de00194f7472fa41de674d8ca01cbf08c, 0x1919751c378a82506fe30958a36bd6e75ec673bf25d693d98033602e73d647e5, 0x27916b3e4a0c89922381ac94cdf88b3a4e82a539fcf5c899a5120a63cb4f768e, 0x268d3ff9e18dc9c373616a6a5a1b81c93ec208dc043414557310c749b77985c8, 0x21286d51d350476f7b3a2ae3ec046c13d5c911173de41ac1dc9e59bbba669f2c, 0x20fbf8d6843bac844b6cb6324f7054344125db54d5600a06fc9b720f2229941d, 0x1a2fb57443a3a3d7030aab81b256c8b9a84da724036a003d435ebcaccc774f44, 0x21b13b9a4cb8e9712bbce32f178f59074a35a8cf0771061ca0764b6b190fa139, 0x2c7a11815a420038f71fd201baa6412ac292a63dd9f7d3090ba15573bba3c5d6, 0x18c9638094626db7e58bffd717b1287c8ace706823253bf6f91ca06a37f7fb35, 0x136fb4abc4e094fb4b5bff23de0d41bb4764481de793f828bf3d9f9df1aa1cc7, 0x3ec0f79bf7730bda188a011089b92d26afaa5bad67724d8e1932572c65796a8, 0x629f306d8b1a0682c7794c32da95adaea0be483fe4f631c2b9dc250541257d0, 0x1f0854ee6861491721684270879df687a12c28a0a7935c0bac0972ea398410d6, 0x58928f7c7b8503a2585ac439ae4eda9310d87f95042402ffafe98ef48ea713c, 0x2fe5a4fac888cf8dfa9acfcee249f788e86c043441cd3623fb972ee519ace172, 0x29e954045cccab9612ff8402ad222c21dd5cd3b34d4156541d5024dc885b8d98, 0x251a3962ba0f3e9f8de881d104643c9c39272092312a2a771f11791e63957b20, 0xeb04f89599cba100ee5bbc4704ec638d102c6701083c6afee8d26cdc64b101d, 0x2d2057ebb4878c47313300f8a161c6d6b3008c263e738ed1b77f6e2d2368b082, 0xf537c7681eaad752061f5946a10f248f8afe02efaa724d97e763cc8c0971556, 0x1e40b9aa000d70d6ee680f23d34ba07ea043561b79e8b6c306fa7878232f1cfb, 0x1aa38f4a119fa9c3e3ff99d0ae54aa6cb1180c41d7585ef4e033678fac84b2f7, 0x5661c023cc8ffadc425af8edbc5a45a5daf64967bab03b91c6f2383a61949a9, 0x23c4d9d809b0d3afc1c27cb6b1dec663e9625fd44f1f1389cd1b29e2db150e0, 0x9fac0eb9231850de7965393a8bfd15ddcbbf26596278dc789b3e40703db42b6, 0x40b84ab00737103ed5ac312f5d44e27d4749cd191051bf8a6231bb4780e354d, 0x2e2eb4b8354572c267ce846c9eb223e3819628b26456d7244899e57d70dff93b, 0x198728ec996ad0953cf87bfeb8810be5c588ac10b738ccad7b1f8bad50c97e35, 0x2f8a8ee41d90aac2a91c1cc70772ed6f98340052516b3a54bd8df388870c5b24],
    M = [0x2b6fd7bc3a3b595c206c43daac752b765a12255c37ab51ae183933737a8b8099, 0x69b1779dec3eaded3f07d0c3e6cecd6cffe78d747faedad9c90665aa2d92cb3, 0x1fa4effc83498d19aaa598b7771f88a0554dddda89d32dcf8a6f4cf776d13b99, 0x1676f5c07417ab54c37ec8ae1a8314bdeeb09964769881592043dffcb26bf41, 0x1f4e7bbc8d42779e58aa07bf54ff324b814fe687b4c8eb81b9b7e74448ee27ff, 0xf6b18c98fc89fbfa99a04c8c96ae5db35c296479f484b680df905d4cbd1dfa9, 0xe6cd10883e1e11c6c191d36329f30eb0045af06c2d86d0c439f5c1f4fef54b, 0x425a9641fb01558bc7170a2ffc24eb6a514198b296a1629cc284d983bca8757, 0x397a7d7434b0aa941348de45aec442cd5cad2c398884950e8233c58dd50335, 0x1d66f208fc04411a1385c22e203dc08f0bac2f7cd9dfaccdec20d3b93252ad04, 0xec1ed3ae3beac4ddd1fdb17b9c7c648e7ec81885a07a5bcbd967e6a3676f356, 0xb3e601e36a5d82e0214362c8419474dc1cc2c0ed8126534d69a3f790b27c603, 0x163cb4e3a5ec92e57b25b095a3aaa8cfdc4ce59267718cc6090a07e14af10b0d, 0x2dca90f3e5a15b29895f48d7a1290d7a33646b89620dd0a8ccde3aa3a51d41cb, 0x2c78ee5ea16d38f0beb9dc0733c4bb1893cb33ff671b737a1122d64f729cff22, 0x2af324ec4f9e7786dcf00439c75a294bff753e3292bbf62e66471fa730f19c79, 0x111d04c083f51a6fdf87412a537f6601076d61f435094ea16946efbfa4893e97, 0x187aae261ef3ee21b37023518a071675c6d00bde82bd7f5441448abb632a764b, 0xda28ede7f63f75596a2568b2dd7a584576e5b282f284795b1a7aa21663822b1, 0x2043bfe52d2964e4a3b2da5e30107716cc764f9b1c8ba463f215ab1f7f03498b, 0x27b48a636a39b51a938aea3eb552091559fbfbe71e096d518c40d908dd2570ee, 0x17fe75a3d11b4b9d2acf7856d6dea3bbac62ade0c501347b16864f3c73ebb7f9, 0x2326c3dca7aab6b1852654fb13fff42a152ca9632124216cc7cc6f6d37522a59, 0x80c442909227f4a9da92e33237f9a82cb0c6f7d0c4155bdea5c6517b046eb9e, 0x2b1c00ea00893f9f91331bc907397db865c37d3bc6c4b39b81cd931696fd7837, 0x92f03c7e98e61c2a85943ffaf9c04dbb0145fc2055e4d5be90bb68b90109746, 0x2a0f77bb3624fc4826c9a2a66be4ec75dbc21642a16fcc4182d2d65c0fd8d7ff, 0x1083b742d35332a8b79b80e7dc04a72f7e86692e529b6a1ec5687334b607da7c, 0x53e95f9455bc6499d447b6cedd0b6aad9cbced97ccf10060f3c9ef51e28e76d, 0x5904dae3470d40ce12749b27d646e620e8519e2b17cfa016caeb89d9e34ee6e, 0x2e563b9dc5a3d4d5a93f476b466e371019c77fd6eea506126a4f79274f2f6b9b, 0x14560083d980d172dd40c9426cff41467acea41d7f48ff11ac5fcc087ba2d5b8, 0x133c5913f25ff5eaa860d0318f6a4b4349fd22f2d53530e5c785b70988a3a88, 0x169538094d4f752529471e3fddc9ef994cfad4f96dcc7d636f0fd509b8eb9c31, 0x199835da95f6eb22c591ebe514c7f283f674fcfa1eb787dfee5781a64f082439, 0xdbd8662511dd7000991b39da129f9d03b565a0cd2f218d6eabbb49a25f105e5, 0xdd0c118f15ae07e5db55077dfa46e08109954d99e18d72cd2caf613920e390b, 0x7c921bf45e354848a60b0e5f292bb03c2469498b9c1e4d322f4afd1867408c9, 0x1f694d1acbaab0ea5bc026a1864d568be555b89c0f49b6134e9b895ae141da86, 0x1604de6a2db122bdd5d839540a1005ed402425bac3b85e3a72224d337402bdec, 0x25970ce31b7b10cef221267bb1be1656ec29146df06fdb5b4f6fe6607523aa08, 0x14956f80a65b01f9ee97e2eb070e9df2711cb8bcb538dd98e532636cc60782e8, 0x1d799ae83ef6552f30edc47b9e82adc0503dc4b74da40ba0bbd2cc9eb1b0a53, 0x12417c001be86197013b2b4871c4e9b0dceb83991919a9cafacfe54666f590af, 0x2171fd11f94485466a819e24d0acef08b0c87d78b46d93bb9462b443fa40cdc5, 0x22e9bf2aa02fe65e3cc74fb3d83d4e3351869bd30528c378958af462efd645ff, 0x72ea2f5cdc8a3789fbcea414a91e7b27bbfb3151df510d080ff4ef7cc73f0d9, 0x260f751c7823abae61b8f3748c84791c0bd84acf7eb6854870250178e9a52cf5, 0x8875f47d6f518c8c2df51a786bf2207aade284067228f440e7d0307520a56cf, 0xa68830f19c0a729b2f89be27373d397ae1157bf507e7799d4220166ea0982d7, 0x2af560600b3e25abcc7f78a4d6e2cd3fd99bcba075ab82b55e9841bef7b9210d, 0x11b33a9f1818ed7f581cac020051de26fe28dc0bd8cb1a4457d5a8447bdbd6fc, 0x45c617f604c1ac9fb8d76e8d380322e5a3b69fa7b7c2ae2c8ec5966d6a4c788, 0xe6197fe502328d0ef7f9b930355312b347204b877e7f85d9b569dc34f064c1a, 0xcdfe099e7a154278dfb6c0388b9daa1e8ff323a20be6a6aa7a8438333f879cb, 0x15ded859d501c2733feaddde22ff36fa8ae85803aec7a204f42b1f6553bcc655, 0x2d4026bfa7b37a19a300abaf2e1d5c32dbcd42240ed860f681f61dd6d6214cef, 0xbccb669cb016d498464944f7192ecff6716e6cb5f895d2715bcbbb65b1288c0, 0x5de1099c65f08a990ac0f1f45ec2fb872c771e10275dccfa4fce1146639d0d5, 0x2c465d9b5eb852d79338b427b3184d941f34046172a82cce44e2b8e5c4379478, 0x23918075c8fa0929befc2b171f99ebe9ddd6683594ef9a83f84d4acfd9592d59, 0x15d7fba62bac57be5d97452a3c06d9fa757f144df166479ee7306967480a287d, 0x2b6f16f812ba903901355955cc4ddb99f24f1c6e26430947e51811a68311bbf, 0xf6673b7fb4be8cdea74aaa7802c9c73ff0d53a98e94a2bc60685d890a24fdeb, 0xba9f44a107a81cb23fba66f2bc34152728f5f5ca68406649a7efe47c9473f21, 0x18ae39086eebb98d1fc5f05fa0f87ddcb149b0afe38d1bbb85a65697895e63f, 0x101544d131454f20b549b24a65ec84f1b3221fd9b43461ddc6d156833b34c52a, 0x26f2f58d63ca6ef59bb95206ce3ed3124885ec21762bbb1db1d6a7771ec6650, 0x25b974fc5129d82ae4c6246e35f802e03440ead09995865313c8ca91c820c2d1, 0x2d409bf78bd6f6a4eca7397d065023f0bb6732207925d3ce4beef9f621da2ba2, 0x17f732cc1354b1fb476e70568d2dcb0b6683d30b02415dfd385504736aa86de6, 0x40db0defe6ba4797b74a43125cf34d86a2b33e7a22e2710b0fb7a5568893aac, 0x29e89034942414a1ff6833d6e22742d4106e0f5f37d1f2ab80e5444e5a52c9c7, 0x121d2ba5bd8f232ecf44aacf1044cd6ab6f93f1e537d7d1541754fd49f51b225, 0xf0913eb4ee7d3c02d8ce73d1cec2b6cbb176a92129b34a294adf066243ff6bd, 0xa0fe66c0d4de00cc7761008732a0097fb14d6465f9d1df835e0423fb207d979, 0x898ed1ec1a43687ff6aba32de5f819434528a0752b3928331899b0646b2f061, 0x11e0b2343ef371d2d6d22805974f2539b6e510d761e0da170d0da90095a13262, 0x1d59d5c10b0c9dd347899377da35b7e677c7d39ef1b49166b974a7f2bc99c946, 0x1a15b7e2de27125f2e6a74f4ec7cd2455f1bbfaeb1155f1af819bdb5fe54241d, 0x542832ab23b6c7a4b547a1066037152a2442e998c5381ba97698413153ba6f1, 0x4c5ebc771344cc0612765710bfcb1c2e6097abc3d346f049495f7d7b7f06cb1, 0x1a51740cda5e45ea4d4bd7bf5ce5466a66a11afb5bc93cf10d5309e07d410e4e, 0x2eb6ed568377b696ad3cb237064ec68e390c24886e1f122d21d7cf3290dc6d08, 0x181589b140c9109e492fc3ec7d8ca8e3c25a7ce58df06f13ef43561d58c5926e, 0x205a6d5aab2d224b668c70fcb41582ee9ebe1ff099292b4bc50af8b292c0ea42, 0x28239a882dc7b2f3ff7b9aa8de9e3d81af736d4ee6ed991d5c6b4fa540148f43, 0x1ab15f2fde6f535e77e615c8c2602193d45860cc015849df578f9fef9a5bb283, 0x32b6266f24017fde1b281d0fe206dff30b539d5c5ba13b5312e488d8d6f194b, 0x4e358f259a33244f4058a056110a26816bbec3c76ab6a5f7be93c9e0c92f3eb, 0x25a9ac2d1ef84abd98927b52c24f38796ea60e63858ec5b50196d7e169c93b84, 0x2f521f24bc02286ae2bf8484fbbc39843886755f52bfec7d3dd5df78d340721d, 0x1dc3f7a659530a13accad181b6e265474108d8b1469266552dfbc38cb679d06d, 0x2ba39845393fcc776fd383e535d567621c7f64005a83a6f7f48222bc902092a8, 0x4730fe04e0108c9a5145a5c48e60c5457e4708522157bfe0f82af5c664d6ea2, 0x75a09e41e74de8a2ac7fef27591e76a77c851e1a51185f31e99b5e08f01cc74, 0xba1f764367360952942ccb6edf051c8f937906a816641e0d1e9e2ed26906fa8, 0x29faa7dadc8b7e9588d4a601e77bd80aadf272a1bfec3c443ca3ccac81d9e1e1, 0x1324558b8a5d4ba61b17790128be9f2440c0085dd5d6065b88f0a3b2537bdadd, 0x18faaf1c91e002f7dbbd12f408bd5c5b92f38e02ce3635824821e0347faf53ec, 0xee1288b29855e2e38dd26292b39e260529841344538d6499996a32e7cc523f3, 0x2380ab051d0ac580a7d116f4a9337eb31090a4c7ecbd4e638e7717b7a52bf106, 0x158926b9e94b10fcb321b293bb8a8647627a5bd31315808d397c1c94f650f2cd, 0x264fadcc791aa18e76751a895242c30cdbbd1197a90a456dc278e10bf0bff5e5, 0x2ea014b61ed575392239bd9411c0a6c4202b7334cf2e0dd8c3040528e4a3dfda, 0x2da2603a26d4fdec35318204ba5060663e15a0b1e4d9395258d5e6eecaea8fb1, 0x20a0e3f4e1249c4c6af100dfdf63f8bdc69ec7885bcd0d2c2e98d98f9bb9d104, 0x2f1d3eed36018f9679711e030bdbae51224b5efb8b1eb1cdca8ab886212f0fb, 0xe388bb105242406e372080e997a31392cf4ffbd9c694163fc366eae770e435d, 0x25143649c13e08d4b00bf34d2aa1a8e450f89788e27766896217047155c5bf1e, 0x12ec24239ba1b0fc9f952550a223a52d209d8d22b8b21ac24881a2719276be0e, 0x79c04944d50b4777dd0bebe953600645ceca9d65fba020f97365146bef9c6ce, 0x2e0611fa4ca3985d7bfaf512f21a4081141f4ed0dc4b022834d3cb6cfd8b7ffc, 0x2acf3493012bbd818724e7ceda2431e97c8933bfaeb5d7463b512e6e8e8f7fcc, 0x13473024ba419fc2a7743e7df8fc8375aab150d3753a54250a808d66f2d06b91, 0x29437af1b14f637a1f0e39955f2604bf20439fcb2a090e346aa65a9ebe69788e, 0x206e4d445315b764280cc643b9479f49946ea86d7304b6a2c692ac34d7c98d34, 0x1382c3c24bf2489fe9efd80a163e650111f5d9885e58a9ed729dca1f9a74e59f, 0x17cd11864fd2c73d0867d37264b4ca14df935a82f2a6f432c4998135fa5f4aa0, 0x2de279fcf77a270823a91a6cd1aafb58e9e3ab32fdff0b3b05c98d554db6fad3, 0x12ced5254e260a9db7abe0cbea26396680f6e57dc07732a755d409ef751200b9, 0xef5f9ee6ba1ae1d1264cf1a36e0fe4b8043ab0bddf9b9c3200fb687a8ea5c83, 0x6b7e18d01b47ff8e4ef08078e8128a06693be657489492ac4195a854722bdfd, 0x23aa7ccc3751b740eec9f35a29986bc958a4dbc7c4b12eab2be8376706deb20e, 0x2273c370eb5810c03903605d7cc94d5a92af6aaaa7b844f35189e77406a7e86b, 0x2a7310e75fafe902e20287a91abe388aae8420b1ea4660dd7c159c26b9632cd1, 0x20098399725ee15d93ffd3e481e4a7b95c8c5083f9d69bff1714eea7c7d82d49, 0x2ca2bac7c1aa0c64e684123f0ffe22173923052b6a01f3c29be80137fd8972c, 0xe6f23c0ef6f159dec68341a87830fb864b6c08cb954a14a2500876697897fb7, 0x23b34612e7d052f6b312ca0e0cf70034ad232d9bf63c88821085383b6f6ec4a3, 0x13f15bc6453df6f9383446550534dc57aedb10139e3053e83bafdd99356175f0, 0xedf86bf1b1599fe27c66f3494862d75df7764070a8263cf88778f7287938d8e, 0x1641648c26b5a2dc297daaa6d4ddb6a2f258ba738f9094e7c5cda6efa8c993b1, 0x280c4522ad0ffd92c391e94c70f87120b8341890c3329af050625f2be52f3a41, 0x1d772098b6154921db8e7506e6f0372ca44f20af3386e13bcf71ff5dc0d61b1b, 0x53ed8ad550d8992f4b9814920183dd839bf355eaca8cc7b07020a22614a808a, 0x1d4f9ba4fd8ce4ef193b9f870f44956079538d63bce344f9016ac5ed63a99a5e, 0xd53d61c8a5214e0c4715274ad67a5d6a2cfb9fc3c1e791d41de22c8ba8468a4, 0x12cf87253913d45d287e975f2b4f5b909d16a87d89c889057f666f6ba61389b0, 0x2b088cd30a10899babc325bba32aa343d329f9a8782469c4d25f0f237ff607fd, 0x19972ffdde7898ec8be4fb28e4b19efaa43c7ee20c88e29096ebe872e1c19475, 0x1fa6944703fe0012a16ee6042529ff02bc804313ef8c6d8b0f910a75e6f47739, 0x18237af733bc44418ac84e623f483a6be28b8f21d033fbf099d645ba20f1fc26, 0x13d9035a0dc798b04dcef0f08edd241524fdca0e95ba9cac05d207bd317e19cf, 0x1a7a2a4a08d87e75f720302bead7ca21c8f7c2ed2debaced9b8b1b2da461cbc, 0x11680cc6e80b0e430a4cd3607017fa8331d86c4d03a96dfc18767c97cbe0a197, 0x1314b54f8786096244532c9f054b379636e2b58bfdceb3d48dfb2210b529b4e5, 0x1336b208e00d8ebac83246a96ebdde351063fa3f635887e753a0ce3e29c7eedd, 0x1887be87f7a352410482ef3bdcf7ef17976e087eb8990c76d7e971c44c048239, 0x1f405a9483311e1497568f1bdcd6d58cd6bc813982a0e71561b620003b888204, 0x209576be72db7b0c9fe2b8329125e7dff0489a8e900a5f14c1e6e48604134264, 0x279702b135d144ede943195269c00bf620f058bf0186ce9fff3cb38b22245a, 0x2c9c3135cf64b89eb5b714d7b2ebcd81fc7edae637cc6116591df208b6b2583, 0x252e78b4838ad5007f518bb9c6a4ce501871f71128eee3f0c9784cd64b183fbf, 0x29a7d554e9ffbee639867842fd0e7d41ea9b1bc9621b654fcb398f71c95b668e, 0x305a0c2c2c4d35998e9913829f5602504363f21bd720347350b604193e79bc3f, 0x61d78e1953d1943e2d968335b73e15fecef89075e96c943d39702b214ddc5fa, 0x261f975babd7692822473b8e39f948b9cf98730a9785de393179d4bb99dacdc8, 0x1e3d6cef37f9bdac23d1b381a6c58d0ecf06a6ebf58dfa7a995a443ed7df68e9, 0x1d6657d791831169c56b6e9a201f8b7b240246a2d0f854430489b983454032d4, 0x1d8005df48c8565987dbb442b482cae5bfc10ee486ecc5b670ce861345979d1d, 0x1fa772ebde6f3732444623d67fe991116298f8f30a2d1010c8ae6132a3d6907f, 0x56a8ecd232a674c63d7b603ef8cd06321c560df2fd3f6c2649af576467fd798, 0x2646341eb44b4800d56084cb48500fac48fc533891f557e96784cc6004d8928b, 0x231f2c98bda8d48bb4a6d9c98bbbc16027235a22a1ed4f88bc8d3a6e582209f2, 0x1cafcfb62926fbc04857b0bd7d7392b8d8add16b5cbefb54b4d5312826e89942, 0xb7ab1ef17ff6235f7737f044161902f03d594cf4a0cc67b4ffb4711ade1eb0f, 0x179a82b77f2ccb94b38eb582ac4abbb16df429ecc22471be73cc7766f96d9948, 0x18b63685f6fed2aa1904856378442151dd1fa01c7ce6121d23e1e9ee20b42558, 0xa27a8d1af6a0460ae1724f32f21a06b036668d0a863be50fcc47fec5763ce93, 0x186756775058d09c639cdabbacd01bf3c2744152156fbf7e8f3e999fb610ed38, 0x8bd9ddd192d797a19dd1da049beb39fa6596598a27031ea1c2b28966d96180c, 0x194184a825de9e9b63ed7a7bd071253ef5903e1e75a50536db93c26311a72017, 0x2e08b28bdcc417d9643b3008085a27f4a9876792d3915c8b9da3567a6dd6ce82, 0x28e55b0bed59191216d5dbe1dd05b22c009b079de877fd54aaf5401d2c867e02, 0x1c89d8f975f0304282ad8f7bd41c12c3b18ac6b80e4065fccda423bbb3ffa786, 0x28122254823f8926acb7e98f557e796282e5e1271618858e76d49d0886da16f3, 0x2e63f1740332f57e8317f2592ebd8db0812714d6604132d525e33e19b3c98494, 0x98b740976c2a1031e75132e050bf3838b739d061582543c1c7f95c152ee262, 0x6f53c79fed9e09848e112a0742d8ae84a04bd9ba5aa2765b1e5edfb1602140f, 0x1fcea89286dc1db61fe1111606af396e98cb53dab5199750aa5e5d11561fb145, 0xa12e162620e71beeb203be56594416b083e7e94eec23e0f44a5ffe9e159508b, 0x1b1bbf4e9f706051716a0e28990caf17573086a5d818c038836696808b12d8e5, 0x89efed00e9d993f5fc1d5af2f2b5d47a9b70e6d5a603fbaaa8f65102123efd7, 0x2b202e1d2626c6793d68aacf9c3a8fffb27cdf5a0b83ff8f3504f9ab26a43d15, 0x3048a265d0eeb40e5a531633ac22bb825f75cee9036e66a061be3d4d248c862, 0x2532dd7487fcae0dc3a7ac50b80ec330c6fb6d4cf885f1135988bf6dfc010a6f, 0x12cee8e3d1cac1ca84517ab3def487c460aec058348ff220c801b78979af9e61, 0x21c0d1874decaf90613183ea827b91c1b2951839f71f329cb9c9b0753ffaefee, 0x17e9ed191c5641d768b0e55ec0d4a85f6e5419d32f5668d397d5b6cb805387f, 0xc6c9ec31c9e3be0744919fc555c77c0c125927bd16de2807712b35ca26dd045, 0x20829ef3df9c183f8965e49c8f315c2995a6446a76053543eb750145f1a77400, 0x2414d4aefc7b4857df681328e68a582d23b2dcffd579a8e6aeed6c61050e05cd, 0x1202e349d1d7b805846e90834efc911eb6b10c2a09eaeaa29ed288bd779b14f1, 0x24b96dbebfab6d23fa32c2c8e7758cb240bacd8143323c53cdb48dc8b65f8e4, 0x2a3c9f55afacee735a1b515526426384ad044291f7691974d9c05c634b43947e, 0xf7bfcfab17db34c144cee44636bdeadfab44a6bf4fc8ef384ec89a4ae9ed209, 0x17203c4d2e1a428a17be2c27d1c4c5960dfc6aa36f22bdde8be56a0cd44e71ab, 0x22a8ee74367413eccf7aa03fdd420c6bb6255a6dd82081d6b14eda9a9752329b, 0x21e25f0a7f8edc38de25ba605a86cc08e08ccb03e77c5e0b9edabe74768b60c0, 0x6a78dfde1458ee341a089c15f953a2193527dffb43f552cdad595da7c6fecc6, 0x3fd94e51bbda6843d31a282530d54240aa496165d644d5d7737b1e5a7d60d52, 0x2efe529db1de3c01d6fe7fb8a71f1eaab6af1641fb1f7aad4f2b88cd13c9fe5, 0xcab504b22a3573d09509f85d3fbd94e94417acb25392342bacd684006c37185, 0x1cb33ad2ba7dd0c2063443432a847bccce775a8daf868e0c474905a4fa36d70e, 0xaaf37d1f53dd0556e347ec705962379077cd543198e1c27593f4454521261f7, 0x2a607facd3936fdd0e84e9bc3e4b4bac86e8102c2b5ad15cae550d28b3654e73, 0x14a2bd5a56f87009db981546533202f3af812d2ef4d6b037f2830853b9f9039c, 0x2f710c72d6da19c7d87cbffd55665b472b0265d13e2326a9a33b96e95d3746b6, 0x168fdc32d4aa8dc9034ad4a4fafee89f0ed5c980d3db424d38f8ce5cd04c237c, 0x15bbd5619f0d59790804f2b9b37e069fc909a2796d1f77d0c62609deda2d0278, 0x1e16e9ca2502d696023bce3427244ad6553ce86bbc4c349a34ba61067c6b6d6a, 0x1dd0a5502743aaa9f583bd0ad35de13ad8d5fc98f1961f2612ad4c28fd9f9fa, 0xed2cfae7b36f470a7d1f6940f914e8ecd322bfd6b50f9ad9f6a2226e7a95db4, 0x2c785f9d8834f5cf5d08f106d5f9918340fd414abe24f0a9ff2b8e0492b44d83, 0xd8dbc3fc854c0665c30c48846d7bb0eb18d3d78a4f70fef07f242e45b865eaa, 0x22f62e45e50084696ac2512a25db9925244cf0214b6b543d3a9f83b8e8e58ffa, 0x2f26bc13ae48520a439c9f546abb35a1222a307e38fafc3e7ffc843f6c77d7ad, 0xaf825f7ca24b4a285f544762d9defdc99f2b85c1b89fc5ff2079d3d50e6d4ea, 0x160590968429f480f55611c6448912fdf423d37bf483c36acccc1ac9a29d2a53, 0x2bb32cf60f8d469edb1b6c56493d4c9338b4051ae2514d4b6082ef18b1d5228a, 0x2a4a72e9dfe5bf25f6fde750a1847e5b44298ba58fb504be57a595e7fccdc404, 0xc509a4bf48ad76e90410bea34a8919741608bbbb6b5503c93e732036f079d12, 0x199733da4aeed8d6cd148461617e8e46de22d3720431fc1605619b12a7fd4e2a, 0x2e285441d0bed90bb41d6480836850e4d76da8211b04a236dbc7c3c30320c00e, 0xb9ae9f5ee6ad70a651b4b66e34f521b130d18c49464d86fe5d4b1820489028f, 0x4760054bd5d07132548bed7657f17c61c038ebcdfdd4025c7b802e08948e108, 0x2a4c6d3259779c396ef8173ae5fe87bd611dbe25d1c048ada96306db1e3a40d, 0x1959db01f5c8bb0cf483490373e75b0451b87b43e59181be0b6016674f3f5efb, 0x1849cd0910d72eacc32d891b71faf500bcb93e1cef2504af443b94f8b1ce7212, 0x4b5dc2057b88170a718a102e0ca9177afc757ee26773a0290c6bab159ca4fb9, 0x17bdf338072884b522ce3c50ef4711091b9daf48a43374bdc0a830c37e5dcdc8, 0x2d9379e69b178208b8496b8a0a0a90d578b21f090c53042be4767e3c10d3b40e, 0x14057d02e5ebcf33c166e18fe904defa9e342a19e88d42336377f1c5e67ec30, 0x17818dd0254b291d0d8f4f1a458c6a21d8841153661812bbe986b1403cf270df, 0x1c95c2917353c53b4cdb7f750a0fe86ce10f8d5bdb018032d3f793797d7c0a35, 0x2495b3c1bfec60741808149333fc43f04d79dec56582c292829ffdfb3c1a3c4, 0x2adec8549dffde7238b2bda6e7732990a911700c8d35288baa39e67015953231, 0x178074303b90d8985e376584b8b8dfb7f952f8f4cf84d815f90baaa3b644c4c6, 0x1f5fc060028ba07d11fc9477f4faffe79a81040ea9a04c568267644895e6737f, 0x2964901a2b42e9aea1a6593662aeb9e12077a287434bda4ec2012e36a19dc95c, 0x6c2194af72fac58ca13a2a5e3223104ef49a540fd2eaea0d67a920d8567040a, 0xa5494c9bcfa06aa72c36fd22d98fe72dc14dc0e4e74e03d1755f38ac34050ad, 0x265ca211180b012c378e0198f0b5f7758c155e3675fadf92ca79156bd56fe339, 0x21f659fedaf6c2617f17d637cd6f54a27782f4e8431f87af5c8591932ce7dab7, 0x1e463ae3f4c3bd047aa1049f4f091a2f1d5d3550e3d5801fcff68f9a5e6828f4, 0x27412191fa2b2e5327a11d290e4b439a4124f48145c61ff4ece8448a4373eadf, 0xb3a769c8b371562260395ee4f348f88bb056a2f0ec0f98e4e633bf7d943615f, 0x1adb4c87433d866e8fe5ae26d01477e3962879c20c8c3a170c0727167c06d0b8, 0x1fc26ed027db7b9e7241c2c760176662f634ba05a9ca7a850e184ae588cbe215, 0x10175fb6f81b16436af30682f36fbab396eddb7829a50e946c75f27e260987c7, 0x23d300373bb8ebf7dbcf314a3c0b1fdecd5cae23f7e7bb915bcdb6a6782b57fb, 0xf0417fa6237167e741525261306c17664dc3efa9247aa0d4bcfff38e89dedee, 0x1e8fd20a8030fdd94e2c4353d8f82b4b212bf887bc59615814890b0f92a47d90, 0x18572826385dfc6eeca4d3c71d110b04abae013c5450d9e4947a3d019bb41b6f, 0x208b7c8c1ff8422d4a1bd13a02a94681ce217d925f40d2875f73def14de7a220]).* from "../poseidon"
}
