// generated by tools/gen_poseidon.py
module neptune_t11 {
  import poseidon(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513, T = 11, RP = 57, IDX = 1,
    C = [0x6bdffa173f743637a99d10591d2abd3b17959fc00ce1863e737a25a26491826a, 0x543758be6769eaf0ead7a27de384d5688ed92fbf9ae37b8224c9369c255d350f, 0x4332af0d69882dd59a1b762cfd6e1e7ac13daf4e7a5c84561ee6931f06691e7d, 0x1e1661e99cb5c598efa7634e7900250e52e50d59caa529236e5fda535b3783c8, 0x4548d0b7c758a674d1325bda54d2594e9a2f9b3e24c9a30d5376ed4edf1447bb, 0x5c7ee86cf8d3ca049e0e8d18d03b254eb2cf045451208bb6d9edb5914a64e789, 0x6eaea59fdaedd6170273db8962d3402759bfbde36001f5f23182802345692821, 0x6806f79932dd7ab889c3635ddce9a2797f7c4ddbf299bb896eb5069793c37a, 0x1147379e6bd9e407aae7cf9d3f4aa4ee59e7ad4bacc0f169c9498d5e9ac7cacc, 0x1f1fd0ee032b95d4cc34853b6611959340b04dfe86cfc1e0240e8e3ebaf9da2d, 0x11a443d09d9df992cc27f1c79b133d2c3e70cd3e5a4973eb9de8dd59b4681fac, 0x6f48a26982741b63cbad7626abe1f2e4df59f3c34e9e3e8c050d39f988b1e398, 0x23e6e3b7839f41e3a80e982132ba1f438ee931290b2e72bd9b304357f688e323, 0x4ac1e65fc4eb2fd11d48b8185a90183c1659edf2e1b8b3c1318e6f3bff564811, 0x181d5aa2cd9180600f258ebcc5bd26ec0f899276e048432f4aa43a692bd6b4ad, 0x3e14bf7f06a940b8c998b877d083b631c2754651864c46a40dd2c09b588dfb92, 0x6f3a259fc01f25e5812ffb04f2f0908204d08f6be6c3638d43c060944f75d51c, 0x3c6424b883922cd4194fdf0ffca0ef151254dee29c1e696d3f71892f07409d08, 0x4dbcf63ea9f90ba18b4ad51f342571464b3e30f614c00de4d4cc577f89b155a6, 0x71c14f4ea93d2095c0e1fad119711ec5b3a7feb20cc45f73fc7080955deeb797, 0x4c1263b605520d05e1547be22d8b4df98d157da84c3388862e102740b74efd9f, 0x1537df1e53228861baac71f2ae79ac937df71fe4641b3fd8c4b72bef6fdca048, 0x5737817b4574427427917f7be2cbe258d53487d944ca6092975ff82c0875dff9, 0xc58a30d185ab1e3e4213c51a278ea7894bb928153b823fc44251c3839c28b6e, 0x52beeca0490849d8925d1f88910c80ff6526fbad27c4b80f84c4afa5980928ac, 0x1b433c478dc9719463756f0fc857ee4fd855e7e945e0444abb88156fdd75749e, 0xdfbb8484f9c22c8b616c9248480c2745a46a6e26544057e2c095f4bd89eb0f, 0x19897dd34a423733925b31e38e8765077ceb197aa04962924f119fed75ed1ace, 0x4f2c2af327696e607bdd131f88d876b878cc7d928a351feec4ea81843f19ace1, 0x6e9b4bd2d0e5d9f250b2c0ea6f97baeb5d2227b8d19d3dff3bf258b214080f9a, 0x58ba8992dccc7ffbfb11b10db636b8a43f31f9c1ad6b5c807f42ead90c760e31, 0x3692dc2e8de7d861c56a36c03c6eeb3af4fb80fee58905e716b0a9df4507df13, 0x2d17e8fe290c8cfdda81a9cc5b94c33835a616ad5218dc0aae6a93f4fd5d27a7, 0x19d71de01c074d09625167db9f497fbd75c45c72c80310d2d497bf251f0cac1b, 0x4363a1152a5244833e2b1d86aeb4a0b15e5703bc42215a42cc632df71af55b92, 0x506031897f24ebd3f9ac001a8234d58738e4d6d63854c91c5a763addbbe79439, 0x5d390f84930b08fbded8cf8c5d37d1fde935a198068f9e486c77e13c39cf5a16, 0x684954c6aba7058c1b13cb3fc62f382c30f61d6484777ab15defec5c332c5aea, 0x5da5930ca6f2342879eecd92bff50a6c0304f30958ddfa0725caf101c68ddb6e, 0x689b558143114dad1df74a7a230af2d849ffd286cd1cec7c56d15c661aa41eb1, 0x213d6857b852966a260cbcf89da7716ce3d0adf42c0adb146afa93ca987f5966, 0xfe71b62665b9a4d3bd94960b7e34ec97ef84f6228f661e9cad7da1d6027c16d, 0x1c4257c368a1f63677f79ab56cee7427127d2b9a91a8686763388fdfc54a6228, 0x4bacf9ff04dcc201f752ff874a4a870db159b8b5e987c65a038aa17dcf6ab7cf, 0x3f10867a0e50c3675156b4ee0fd3a00c01a4275047a579239c81e31fa962c2ad, 0x5fb389f321fb13f15ec4978b1aa8118ae8bc7768e0ed664261238b2134fbf37, 0x1b69e2e08857ddd57c156c1615e02b07f4a18bd96256a73a60e4fbfaae33c908, 0xc050f3ae919c1d326631039b903d6eba3b73418053cd2402360ba70f270a2c0, 0x2ef57208a84940761f078c6c4df89509ae366ea8cb3da287deeb3e6520608b1e, 0x72d4beea1c705858ffc1e74c8b5702ebb18678fe0ed2337cbc80de5f508cd9a8, 0x68f1a3e13a7094c93b421523d6bc0360e4bed33b684df1662ce46ad72502188f, 0x1e59545b69d657b042dbb34291614cfce50828ba1ac15f36fde297dae8501e75, 0x1dcebb2eab4b45f2c809cc39eea7e5d2646aeeaebb62168263f1748ebd463f9b, 0xfdbeb5ad7fb4315554943de6d849c46bcc26cf14ca0d8051099ff22880b0ad6, 0x466a56bf5d14f806c96682e5b0be175598766ea86a506b1bca35df336d7750ed, 0x51e79b5ecce15c4a7a9baada871a0e807ae5347a45aa6d300d42199d9800c626, 0x56238e194c8521111f999858678be98f9c5451b20a02f67f0db4cd9912bc2cf4, 0x673d55a51b5376b7ed9ec49a46cf0b7b079a405ad42a53a5be946cfa98ed4717, 0x2d8682dd983a0537cc79d758fdaef5bc24e7b4d5f1947b7b009b5d7dabb4ce66, 0x4553fc57733ff10e3169f8717a6795984613ccbcbc065beb949615fb812c1fe0, 0x1e8076e01d9401645881068aa7008cf12a020c4048b9fee1d795de5872f86a6d, 0x70eeeb5c4888dab1e14693755ad4a376fd8c59d24d9be64c8a19fe8567d8b623, 0x65071a90467025bd6865f30f22266c5680d97d6e4465012baadbbaa973f7ee2a, 0x5d4adbc8a54be68c47b441a6aab1b096295b59501dcf5953c36dd69817f2979d, 0x698a1ca1de59b1c44bd550f9f69fa13b179cd7497f93fffa2fa9d525c14b29c0, 0xe6216c759c35d5102f79e29f10c9230232fc5518c370bb9e25c1258770ae908, 0x1a6ee842cca8acc0e0f27f2d91d4a5d94d9ed9f18787f9fddeccc355cdff566d, 0x25ab1c14af4b71bf55878890bb47c71f7671da2d540667232c5265bf4490a962, 0x57311612f3bbe647feb6744735b4786f00e7ae95cdc95271a25a4fb9baa8b7d9, 0x2b05e67ab3d34314632d7132e3bac3a2f35e1840e0783816affbfae903bddb9f, 0x275fa4db60d0717f0cb7d0b7f684078697eb7a5c03132539bcc65b6508dbaea2, 0x2cc529a69680a714c675df4b87275a9f05e5501c574a7764dc1aa640cd008f90, 0x24d9c2536135331291fede698211da75ece13cdceee5f469ae5865ac3b35db34, 0x104343fc5a069e0fe47e27fb78678cc7fbafeec0da83281562dee2be9f744c9a, 0x2ba5a2be486684b86f71a8a5dd05ec045eeb733f094c68a9188f64896137224c, 0x65074b65c44502357155ba29d50f6a6331cb6d0c25b1aa18873f5c4461f1bdfd, 0x3cccecbb089cfdcaeb9cc5fe2988a5e25856217e8abcbe2508731bb97cb0835f, 0x2d4cd7ca2ab408cb38487243d4b182d3c2344ce5a5289ebc326d3bcd11b21a5b, 0xcaa598bc65e3b4e633e59fbe37dd9e758d4fe1d8e6b262f8f2ac04df7602654, 0x53cb4015eab3e3014aca5f61a385a95e9213f7deebf2dbfc94b05ab7480d3af, 0x1bf4875a1194edf8d903e1ac59bc4cc002d6dd76033652c1b85a53af13d9accf, 0x49848e6b2507eddb3b4789b25e9123439df28c6121764ac561db0e21ce668c9, 0x5e0363f3d49d371bf6a0921875b27d54679bf9e05b5a2a2c19f4dd4c40099b0e, 0x5488e4f3fa12c347bec03066998f7c97adb6797b11e2b00b914b3940fc88eebe, 0x6f447ed8203202a88fa54cb4eaf5adcc345fbca354de02b1281bff5c2a46fbfc, 0x35f284341b56e28cce5e93ba731d2f4d771596679116dc14fd707bc67fda9c56, 0x3114da6cc71f93f1d559dd093f22d2f4bf152adf502ec6af2b3565b45322679b, 0x2b51e6ffca9c3ca33f61aebfeb2988097e5311502f19c9a268d63c9068badd86, 0x682c826529ec9713ce1d1723012d7c9d557712aa96f0ace96d858605e788cf02, 0x324293d7634c332dc3bdd3e6cc8f7ce17a725f30bdbad66e2f60b1781797faf, 0x1001b0fbc85284153ef500dbb9880b416ea29fff7c3cb2e6320b8c2e3b6992b3, 0x3f5c30f34cb522324935178eaa4df932c6895c62779c0eb1978c1715dbedc2aa, 0x124b35fd856baf3c69f29f9654d7f295d0f88f65e21a39e89da17d8e7ef9f629, 0x296f8bc0d6b98e225894bb07490fe9a847846fc3358092d4179d405d82c03ab6, 0x3a2b833228616621ffb0617047bd8c69ad5dfa7b7e487c3f0448092607510437, 0x5e40dd28f0c3d5106b67429fcfda0b28dfa841ffd7a63b57fb910d33fb6611aa, 0x6fcab30cd7065de5d5d2b09eb3b49b1395d40661802b4d9eb5bc1a364588f120, 0x35e3e85ab90dc0634d5233777973f1a858b4d3ff135ce97fd7bc148216330f9f, 0x21588eb399d95ae40bc0dad309a2cc1c91618a97d79ffdf5b1bc5407da775406, 0x482071b5fcb5180a1823d6a003333c0d57041dc82dd6b32909f1616a0b0ef8b7, 0x4947297ce92b92b0d3e98d3ee695465b2e0d166fd36f61b1dc5c1980ced4f416, 0x17ce3611bcc852873dc8acf9ff33904969f7424a97e0c716e4617b77bb704a85, 0x2a844ee85a5fe8693c3e6787f27bacd36251371c9efbed509b38b20410ed33c3, 0x360a9c589de58b93ebf0cf0dd26a3f8fceda2fc90103fdd0f26d05c8f5a64b9d, 0x6d0da81972cbc4c2a59daba75ff6fe53bb4d51cf688c4be4ad726c0549ba3f59, 0x70e2c561d2f7ce2410acbfbf9731310cff2490a63e108bd87b399cff25078119, 0x7122e8519566c8d58a4cc9561a1299f0aa58b674a3018f3962c078504b4eb09d, 0x159a69d6299c85ac72aa718c27bbaf56201cacbd421e9557c5dea02c9edcdcc8, 0x4e01f57fbb364854b788282f9c10bb9268b8c760204409abffc22e0f3fa07d60, 0x5f89edca9439dd676115fd882318b950cb02ae3fbf0616611c1d39feae329629, 0xeeaa986a2c7e3fc9c154f7848dcca1df8ea96b23f016a25b40d6add3cd20ce1, 0x377c851f60d43a0874785ae13e045d1dfed66597ae3fca4f0c3d55a896d383fe, 0x2b1efb20685eaab09fa8b1b18b10b741620e5879210b1b305cd1038c419591a9, 0x69d284abf9c2e50d62818fea84600c600a9b63f7f902df1b851553dcaa700470, 0x3ce1cbb57b3ce76f4facb1f9316c212f9b026643d24964a7593c7404e0fb69bb, 0x19f94c35d62f4fd9a9269456953e38cd4b2d5ae6c8091645dc8f2342a97d180a, 0x36bf8fe9b751d2726d9e72d82c766fe894b5d053db6d6f668be730d9dcd7bc80, 0x1d33639e6f8b2b013c27f825407dd0d80aaf5cab2191da759096cefc5e011f95, 0x6a4fa1a0ae024ac0a28c074469b9956d61b6ab8c20b070a54715459760fb740e, 0x4ae657a0976fc8d14d848cbd0c7a5239fef7d24d147544aced683387f9fcc47b, 0x42f4f27ef6eea33518b487c663ec4b641d4745d872a292f5df9994d0957f168, 0x411a72cee317947e15a4f3cb4b3c846d4d882566b328446c836df986f0b51148, 0x587eaeec86b92cd18242de91b48b62bddc273677964ba2fcbf50eebdfe1c5dfb, 0x3ad73f7a903ca8017a4e2f3695eb1f188ce08ec9469ac989297086e9c5a1edd9, 0x14eece126c8fcdf380589686f229e1a65328239bbf0581011e40396d159da5f0, 0x6cc8d7079496ccc51b1b7eff12742fd3426fd16098b8d7b9aceda2ecbb86306a, 0x70818de726aeed987b672b8d8747cf2ff6243382d66bb418504a7974c2d5056e, 0xf21f0d85f07d99d77686b4e1e0747f787635f3260a8958f5f5790231d9b2b67, 0x20a3b1125175847ae7feced1573f44c8ed192c6fddbe5040dae15eb6a09a1a, 0x1d5dabd07d426fc31764e14bcdb40b370e6f6b5b2ac5ca6fd11e4fe0fe0bef77, 0x33b2a9117cb9e3b9d94e3af3ae69409964fb945c86b8e08d41d45bf42875e1be, 0x4e50fb83bb70c81721972434db4f42c0d071ba8ddbcc2bcce966f9994659dde4, 0x619cc3524198aef2b2744ac077f8fc811367a4e83b2f38d58d76012ff3ddbc5a, 0x5ecbed6808b7aad0f7bad5d120eb90c1038a85ff3866b095387705ac7cb8b463, 0x18441db605ac972caf19814f9e367bf1004c7c47751263699d487a72a58617f, 0x4e27b9d950a36fcee5b2110ce5e95dbff76d4ca23bbea5e80e49c9483e8c2db2, 0x736ffbb70c69144bc0666ed6c1d47671ae7f814debce4df3906fee9f9c51a188, 0x2792cae09f0a917baa275caf4461978a4b0845ac4434209dbaff576a3bb43246, 0x63deb93fd36928ea62192800f23e78f11b671dbc39eda1fa344d4a3b5b8caf73, 0x302afcf1f497e419516cc2d9d82ae52963d6080b15a68cc187199e7c89c996a6, 0xa92b0517fe122df76d788bfaafdfe1d02a71ec2e5e108210e3e2a2b7f03698a, 0x391a1be4bbd861b58c1170248b2ca470bcd6c65faa384786bc7d9882917bc7ec, 0x31c0db751fa17ea813f54ac6e1173157816a4ed1eef4755ae53db2094fab9306, 0x5e1fbb340122d21768b7078b8894b858e582a04012a1ac78098971270a807a98, 0xb283ca4b995c9d4ba54785ceb05fa28d9887b7ff013ffcb9874d5d73e01ffb6, 0x8d219b954ca0e7c156562ad6160072f0f72e96cebd321f9ce5a0d2f77b9a36e, 0x2f634789314db5398cb930f06cefad7f5637964706d4a0b38a686384d8d8b163, 0x6bc6ec1ccb1f4f82970e923a9e8c5dd8365c3ced9543bfa8cec7f9e39d4b1402, 0x51e29b9f78d1a89c7af238f02c2b3b00bde6708abbc190ac9adfbaf9bd2e6a5, 0x62792a22f27238b28c28e3e33c7f146cea063a3e8c76396f9e14bd62e15a493d, 0x1643c24d9dc0ef51544693f0963b8c896e61f12d6dd05881ef2f977c7d85eba8, 0x2758592fa3d75cb47668ed8d2c973f81a3b47f7a3cd6594d8fcfd7af900adb0d, 0x60c9db322ad4c0bfc6d651e895a6405a3418a985cbddd6aa5139302295d89cfa, 0x641e1a7e195e5bf2b74d5d53fcc4a8d46f35a231a676c4fb3ac78593b77502e5, 0x38bf1cd8cb932a383f275115ea9d4985067e7db430cca92b04e58e42afd5215, 0x32a67a8f97c4c56fa7dc650b0ec62f6c34fdcce1981c9755196c8cd930b6de92, 0x52975abc7b8a1d96d240307fb4949b48a89ed6e59b092997f4b0bbdbe4b94f31, 0x1241b7366665baede75c0908415b94f85d2e2e82dd1d2899f8d265153166abd0, 0x35bc82ce2f234b5550385396246a7d69ded884492dd97848bff14565b6ef81c7, 0x5e19b71335ba4a3db399fb0f6f899f1b23c98e5656ef3e4fcceed87992229aa1, 0x107b952002bb10a6efa86040e9eaef5712e20df02fef4e262099a94105cff395, 0x3d29ed0a5611edeb81e264e81f04139f5b672e4171a451b733ad47d1e6228f2f, 0x3ff4d190d0bf63ef734b87f8b69852335f20af764cc38b4de795a8311411bb0a, 0x383ff489301c5dab6e7cd43fb67de32f73f41fd5976947aed97c10e132df99, 0x4ddf277e431d40a25d3626c7531efe135fe2fac640b0735f62c46b4a903d3d68, 0x48ad346266fb66eb489b3dd25b0f1c62ed64ca69b1b25b3de20356a688fb614d, 0x158073a644c834c4ed3fd019c2a1668cded113bdd184ed0c54a8914e06d83ac4, 0x3a2b72985f30fb548ffd74f69025ec3092469b652f1d88e94587815d89df8e23, 0x6d889f1c0332384187159503235c4585867a2462f56a77b31379909b2a746e66, 0x216bcf5fbfbff3dfc72f786e997707e9daef9f67440a55a8f17383aa724515d7, 0x6aa2881f529de67db2150e74c8c3b450e50b7c26d66321bb69245896fe479fe, 0x40e7d75b124833f8bef87b3135a7c7fb8779f9ff41055d75bba7d5384f5e86ea, 0x71010b5bbbf8c260acbde4f58419e5fe964b5296a6f311bb7f9c3c50a44964d2, 0x2cc7344e68717b6949be023fe92f78852b09fa5024d7998e6a1edad182f401ce, 0x3535fda44ff35c9b830a6aee5d5d57ff0a7366a218ecb05e7439ea73e08a437d, 0x111c258ec44a7fb7a69cdccdbf0101b184d8d7f771852eaa94d9ffbb8cac48f, 0x2aef54d900a049a4af7e0313918be7d8239edddddeec4d42bcd5469782c48d56, 0x6b4a9592faac39371b09aa3756e473b6bfefa0d95e11386b59c93b8b9b1b2d41, 0x45fefaef4620f895b7312a47aed0830330028f4c23f1d0474f0417be0ac88930, 0x612063b7e734ba48aaaee9bff75dbf2032bbc02af78ac68c879d9f44fb06bf39, 0x6a22c8ba716bc265dfbda274e7d2e107ccad6c1a849cd104c39bc5d2a7bf539, 0xd8535c08f26e7b8eca96410d04ba8a91da54ff2f05228fde3c23a76bcb3ae52, 0x70d5bd04cbf0628718250c52510602d02e4f752c0fc0dab104c848cf5a2af1fb, 0x3c4eecaa1387130005c30ca7ad17c7305ec3ce44b946bc1ba8828745273fb5f8, 0x3dbbfec22df136cf748f9e1e929f61398220ca322349ba0f2607ce623c9681cd, 0x435fd06a20a0f0e2f0291be97bdd810a38775685891bc39ef31f344a1b64efc5, 0x25071fa64a863f7cc1e84ff03205438e2a311a514036c6c0f02c6b5d7957c479, 0x40978b7bef28417dbf4ca51dcb4af11f8627c81d72bce4a47ccc218933279a8d, 0x57a8b9fabe20d1078e1265f443fda3488c8e9d8c3a9119b0e3b5128f7bb0bf3d, 0x519e6fb6e1103116f951f488bc500d7c90f6d7ea215eea2a2a7fff19a612e, 0x245a70996c1c36117f7a4e662b13e5cc14491755dde2fef66b5fb909dd6327b, 0x27d03222fcb608bdf5386fc44c1b5fc40f369ca725b890d652dd478c92a8bdc9, 0x826d71beeccf2d44c492f2c608e8a4fd9e20032d49c6e609584ba509288751a, 0x2ba345978ce22859bb2341e986af6c17ba19676be1ff473e0061a852ab0c55ee, 0x123146481a9d406051cacbacc49360f3b93af303bd0cde1f2660e3a0ae7172d7, 0x250a8a87ca550acdd370f5c0c4487ef3bf52cb59b837c314cae801e0143bd256, 0x11a8ec442abd0f2d5f4a81df0b1eeeb17f6870f4736e693afc1fe291a7a1462b, 0x1924faa3603d62ce3022d18f25ce1246245b7edf8319342e4a57aa8aebadf7b7, 0x5ee5ab004f99d28653b193aae02594e6a05642cf298f5418a25b94c8cfe04059, 0x1757a04da52aa17d1165fac6fe51ca51156ab82be5a35fe79cc6310a42ed6367, 0x4dac12be086fae52c47c8c624a0c534fb1370fcc7380414dd11f8e611b85f5f2, 0x60c43b3cf1af76d4945c1d9eb73832cbe1241a0671460e7a138fa1c48c87cda1, 0x6635355f041578e1605a51ebbf4f81b691cf4585eada0e020d2d1571206c6382, 0x3788bd91b1e9e24aebb0728128fcd9bbf889a40243f11326e86fa3f5c368fc8, 0x489bd76ef48804b4a8e61f9b62490da3c649988995a28ed26539b9de3e8862, 0xad63bbf2b9741250b2634ecc90d56993da87a554926b1152caff621c412e702, 0x492ec36ac4c1542b47146fe39ea2f495fc2b5b4614db5dd00ddf43edb3ee9eb2, 0x60894e843ffb375296649e70fbc3513722c9eacea4aadd109467f986f1596711, 0x61785602f668dd5206273fee9baad0854490179c9a7027234910bc272ab4c4ea, 0x5b61caaea5bfb861a9d5255f4885d7b7241a0f204a09e4a23f189ac576e5f924, 0x67276349d1c51673a49cbc01a3c71c5ce44dd0639f2b7be1c9760e87565b30d6, 0x6f06bb3da066cac4a35c1621cb5f4611d87f287c56f1f36343b371bf37966b3d, 0x44bdfc3f2d5cc938ca8dcd0fa26cf9f7a3623bd7a555af8e02609535a24fc165, 0x59f04287f676d2e28a6d590b662499634cdae23467b7cc640e933f772b48aeb5, 0x1bdcc899b57c010f4adcb0373d119cc5d28a633a0395e2328edfd63ff8fe0fd2, 0x542fb159dcb252c96214609f0f921a12ccb2825d33b265af863be9fe1f3c47c2, 0x659317291410aa292c62e5d6ea91afd8a8d53cb4aa8ccca0125d71a3bbbc4d80, 0x3820a4c9c2a6ee88db9e7f8e734f8c3b7a72480170e1d1b061c2246d9671d1b7, 0x4fd4a1fba9ad66b07b563f4e60df839366d96aef1394720d3a5ac6af54fd464f, 0x1eb4f65d11e18fdabb5f3dbd1d1b13153146a9a1b88a7830563b0419ab6cc0b0, 0x2e7b7d85639c87d9772b5c98e7f9537e38c1a448a5bba10c262669f3bf07edb1, 0x6d573b799f76e458a9a129c95279b6e2da5e808667d8a666ae16b0197c6f0953, 0x3f3a323ad30080051ff196f7a4e5784b18e8664e5a6b2af1ef7a119b57f02dbd, 0x5f4e0cff02bbd99755a601d3ad5a2e77abf119547293cc755ae953ce9d00e1cb, 0x8ac4193964c8f7ddaae5483a1fe469e9c3d46f4635ea71cdcee8db849697b87, 0x6c25e648f5d9091364938072985f01e9f00d9ffd6d53ca502fe018dd9469f546, 0x38d1c74afec5a55de77bb4a862a3f17672201683a4e12e41b06aaa4f2e7036bb, 0x559c3ce92e937aa50dc7cd91a7f14fcf045c2b1012e35c107b2c825f8fe109cd, 0x5addc574f20d991372572e1904a041159d3ed521587ad2c2a87221bf9aa4c2bf, 0x3038ae4d2f6d7b7f3db8a3511167851148c7a42d8f325c844d1ae541ffb6bb9a, 0x520eb9fe08c6c6d45c82d91cfb2b539813f99fe1d7c3eb67bbd7325472682714, 0x58608addab64dc1cdc79de5584d24dbd013ea0d02678353269021059ed38a28f, 0x5336844bbd764e9d63723b288c038407fc71226debcc5748112c3f69e6f44b19, 0xdf3d7708eb32ed63915c51c14ce4bd6620edf0d4b38aee2962b0c6afb4763e9, 0x5f3777de752ff334b14841823796bbc10bffe93d1a6d87363247d8ffcec6df01, 0x1770efff07e6b80f5ce414ee2090d1b553347c4e78de9cea16ed168be0103af4, 0x7d8804bd435363e99f99e03b8bbdb9601038a478663ff167f4a1f1ad9c6d815, 0xeba64d0694029a9187e819a712456de34577fcde0026748e8365b4fb9a4d27f, 0x3d12702450362ecdd39bb745e7d647e2f2087c565837a030191096ccefe5c44d, 0x662e0ac000f6f6010882c9f80065ee4cdd0e69293f486dab3b445ef6268af0ba, 0x2700e69a671d24b0eb15e1deeacc9e51180895d01c09c32fc39ee3b97ffc724f, 0x4fe68987125de410eaee6f56f11f1bfd82fecb8543fb9822450a5d6261363e5a, 0xcc11bd7fa3d08e4e00997f9037a4a0f335212f2d32fbb5f19d74fa3ee87a1c0, 0xb53651ccd38ba1d8296c4570800f59ea40b2660a67f412140096bc306a3a406, 0x3b22f5f818490c45b7f8c3a75597b58c17d109ee61c9d956d6231a3e9aa32333, 0x5a28bcc35626bdba62ac26267245913040c70964ba5f24bbbf7b237eb7c11f7c, 0x1b78b27fbd01da56cdd31d19c81d3a23654a489785126f74d4ca1be81c683981, 0x44445f089cf3f16b6d559a0fe1cf7b39a61c2c45bd6761d262a9e8d0ba2e9f1f, 0x497215558a379d641f9b7c17dbb00749788b24cc98a6838d7e9a59655e048fa, 0x1718f584ee5de001dd18b1da2a36e40d8e2549c66465e164dc2ae66950a15e2a, 0x480be1819e149a3b3b8c426146a8256d1a49d530877c6988cfd2562e5601557d, 0x6e23b20ef3b93f6668ddd9f79895d4ac44fb13ebac074e1b7e2d8bce82e78769, 0x25442c2c0369fad38e525d70f23b20245e163dddc1994c4902d87944cc153008, 0x96632a72f494d8c83849f40540e330ca4938d0a5b8d150045092d6fcdf78c90, 0x4286750fa784cecdbf4477052241185fedcce4d128afa0c505ef699a105c79d9, 0x142b26eb32ea3691c0e5db7ac8550c8707576377058660ca8ded9f2089329a9c, 0x71d6b1e40c0c447cbe715189dcb6f4c853589e5cdc44fa17d2343dc303ca28fe, 0x601daf672a39a0aacf95aa8375e8818f85453ab09c9c199122916dba46f2a49d, 0x591c8d20a6a002f46dab5619cb156a1de0f4db99b4b5280ffcba172b688341b2, 0x3990f8d466e595bd8da193b72eb14fb04cb5002085ad4aafe05fa36a076a9c8d, 0x6435623e121fcecf0f090308c197d6ba64a4bbeeff4c09a3790f826ba9edc798, 0x412c8ac1f1466f47405e9df4b16c47c4f9d627e7bd517d81575e82eb54a95450, 0x581d6f3e55e180706bb8b6a557c89dab20b2d1b9938133be77c02fded71eb032, 0x636c83cd2a050f3118cf55c2d4aae353e873f21849736f7b8bb294e6f30a62fd, 0x2f16aaaef5234884a78814b32c5dc6d2242bb6d1392ec3b6c28b991b8af24b5e, 0xed821e0be1022cbab527d8cad13a8af32ca521fb38f4ee438727cadbb8f542c, 0xd74a158836d6e76167de47be3b1919a7de592c931b1fed1921385208093feb, 0xa645573a6d02bfe90f59363b99e7a78715b8656c5f1d47256f6ad8bb74b92bb, 0x330df07422e3c80f08bacaf5f0952d57e5c617b59e6ba09e5ac141992cd9df4d, 0x1ac388996cd6c595e44f0bdc2de274bc70c78e3fa52340618e1b62959c4204bf, 0x1afff847f7a98f794ae1345e15d1a9f0f820ec2680f19a4115af665e552a97b8, 0x105d88f2efc59ffe401a8b3ec9d0d885bcbc80dbb6802e71b46d4b0f00880e6c, 0x134387c0c602a525fc04282f4e29b1bc146bc55c1a270b3ee989d61fbcb28c51, 0x599486d2c1469d652d26aa48cda8530149ebd4d31868dc23f17ac941753eb583, 0x1de0cdf9900a02c340f14f4cf43950d02bfe1a58e001154308f86ab34c5e494e, 0x5bde9a386dd18928816cab914b8945d4021d50b2c3b289a2d35783e653a5d9a3, 0x20fe61cbe0184307f7e707f2091483293c98220a55bc1d64923abe58f7315d08, 0x2300843d42faae434bab333a88fee8dc980b9bb053de9598f6686dc1dbb1120c, 0x32f29290bd8ff11f67c2087fc6a981f488ff553624ee23e89c39e935d0a49915, 0x2a6338ce839c8526c7aceed23eb80602b4a58b53c4e044d7519eed71c3275c6, 0x390fddb845352268c58e33e782321c9c700ce01844d05a032bd6da2cb12119d9, 0x6a5e49239a05fb97dd29f1525854a7629f97647d0250a2f2b155bf0656b2d7b5, 0x6bb9400d9da317a6bdc2d5de2cd313e879bddaca8409624fbd339c9b987b2184, 0x59d1f04612644a4269f05776bf17b882b7c0fc146f6bc0e60c2613357cd83d26, 0x65fc9285f3b8f6dca459863fe25c99eb9f52a3aa54de0b6d3f550b0b165a4bb8, 0x2e6db8cb9bdfa0414becae525630a0210c5d69a15dd3ca754a46f4dac873179e, 0x707acd31bf13dccf2eb613676e2dc32ea76df31f03baf390ce81d7025a68a14, 0x1461e6b2f53bf8d7923d93c546247d9bdd80080aa2e2c05a1114895b348776d2, 0x64495f99372b18b2846fb7f3d537b1296b59fc8133f983c037e55b8e9990cf7e, 0x2c2c08d3c8b998f2bcd94f055f1d420e198d8b2b518edf1447628946c521b964, 0x22882a9345a864bf9d67862cf1bd71fea8b67d5546cf74c950de5421d64cb1b2, 0x46dc7c38e87311891e01a8ee77729c53e429a56193eb4b9c3f5847c4e18aa218, 0x6fb5dd0629c76471b8ae72a9a1bde313989a29768f0a06c64e3ef8e7619bffb0, 0x48394c5808579c9c04a168e127f72bdd124efc82a844fa3da3003e7f93e1c58e, 0x644801bfed50c67d38db22701739bfa3af915d6270a3265d0771076ae2b54317, 0x4c3775924c62304f5a7d4486bd6c54785b61397508ffb74e7fe527b74684b4f, 0x167dfc3fd7111e6a6e0cf3974584dc880f474b22460e9b2b3192c2cd33f916bc, 0x2bcd274caa0aedd76caad1de81036405bdf50c16961386f625b5ee3abffdd716, 0x15eca39e9c64a0616f47b646138974dee2b7722e0fdcdc155121af899002e623, 0x42d42a18e1bef423ff8351b49249014c1f950aed24e6185e7284a4660e76cc79, 0x22c26fbf8d003350cd4f639c9a46b771d59d690b4e9d708192c22ad55b27fca1, 0x238057b60b7c95f5cf425b8da19ae77358d2dbe919a51c01a19d6cda9b81fb5, 0x6f9eef53cf6fd4b5af7bb5462fbf248cdbe2f03a89088dbd89305108fa5f5d62, 0x608772e83b72308093e673dc5ca52ad04da2bf47f9c4acdd0c59c810c8b55b0a, 0x477611100ef4caf376a55ec530d1b8804da953c22da6d3ce25bd3cea0514e717, 0x6f74671c8795274dfb36a2ddcf1bf9c503bbbf39813875d82779a260b99d16f9, 0x34d8224ed0a0918bfd7448e0682f68b1f579dc923624a005c7c362d1b3479d7, 0x40c6fd1bf4d644196fc0b97b63d6e30ac287b509c00a2895ed482a092998a0b2, 0x5a3d2bda3fe645e37349d35e4966223623aaa9b837d96fc65ff00614ddd49eb9, 0x58be28662a40026449ed541baf0fb965788a10462538f8025743cda758f9ab86, 0x1b36d74bc2f0530c3df0ad85a15696e603f81047eda79a79a66598781a12b702, 0x429c1c36df6f8162587e5b831cdf337eaf4d8e654899ac638a2e775ee632590f, 0x15923d915ae5a84d4fb89e47ba975ee2feff9eb9b84bb5f16cdccb111adb46a0, 0x231a41378c6aa99d880da242d2841dc2eccae7c596dd1430fefa2c5f508fcb01, 0x155a43ef20116d5cc49023546c44e508018bef3f9cef443fcefd909d6300f3d2, 0x55c6b740f532683e9e18bc4b1282260fc87ece1b2e35a2245b0898d249b3910d, 0x6439179344d697c9b67a8f4f4840b2e2238b40ce725d4257c91842eeadd7af28, 0x4ddcde45c6b6c7fe3ffb92171cc3c454504720a29a585b46fee05006bbc586e, 0x3856e8e0270b2803b34360c6959c17ac909204ce9f8a6c7ba7213dff509fbdb2, 0x6ace456ffb4b27d5a505a64af28aaaa5717ccead7807624cb46b6b13a8b8485a, 0xe9145c663e727aaaa69f2182821c88437b37119ebcf8fb9f888f2bb9463c072, 0x7173f7f4c1c80e8980b7b47e281a0f4aac120ab7404507924f525af9e60b69f8, 0x7291d18bc0541fb8fc88c9e1a1d3cad4e0b98afe02e0b566c00d70e81ccc28fb, 0x59203c8da09a7a7dc5de3877d5b71ca9d3a4e0b09327ad867315a65cccbb0533, 0x64546a898d7f1f35c7988ce9419b72b4d5d36158017f8e0794b72d38d7572324, 0x347ca0d3b1faa1c0f9d7304694e9cfa54e813aba56640da724a92c5b99976d14, 0xb6bc716ddccbec84fa3a72d0cf3ff5c44bd5ba2cf575fc3ba912fad36364eb0, 0x576227e646d4ce55fb06636a2f91e80367b21162fdca124a5ba434b86a960322, 0x32c562012ca1d7d6f4ffc00d944d40f1e3311b6d94028264b9af436918143469, 0x3f5787b1ce011b26c82d6156f1d602b8cd9deaf828285614d8c4591e42af4837, 0xc8a1b1f202e327bc907eaf51000579568c20edd7754f648cadbf4b02096ba2f, 0x2fedc064b42fda88f8fc111197668c643aaf5e267aa2a31d4e1f97445c1cbc26, 0x4790ef7eebe9dcba81b4e5e78f83b071d697aae06a796363004febc491decd1e, 0x62712d9bcb7dd52845117a22ad4295190332f916b315457cbf6b64e59508e87f, 0x4ef5066055cf4282c5c07c308de5692aa4dd2f85361f2cf0c5052f02a3d96687, 0x60c420bf105d3c3cdea26186a480dd36265046db6c4d9384c5dd3f92d100b0a2, 0x516dbbc0d801dc857a2df195089217d90835fdc064bb236fb634621f0a9bf5cc, 0x25b13691f57a2aec2a2e86734e59a54a51a42cc18bc41a934e4b32b1144d4c42, 0x19cd397cd6be83dff78ade5f786ba7b57b494a3e465cebb63dc2ce370275fca7, 0x1fdffad26f9d85d7550b7bb777ae9e06837f59cdf2d443a0c9861127f41db6b8, 0x134fa846df164b63735aa3ab1cab30a607ce3b013987da77f11f9be32d5a3d7e, 0x53e66ed5aeb3219d707dc1efaa07e8d97f48f6b519a8c4c376194d3dea96553f, 0x495cc0c5f87170880939475130511c123803a78add403a912e8af487b60c2955, 0x1216dd95faee94e09c6af57964ff7a471831419702b150acae87063b1a5886f, 0x25c32b71c274601b6574c03bb1938b56c4d674af27c562ae8992033ed0b46cb, 0x4a9a5b753bdacfc418c0539fb2b9465340d8ca05fb120127f71246400d1c3f96, 0x38bb5e5fb6fb8114465e78ba3bf08f892423db25f928df6a351183a5ad23aeab, 0x2eaecdd786ccd92489674decf95fd70b19f65f793b80a1fd6ee44b3be808007b, 0x793fae797349ff0b73720f643ddf08047d37c7262393e8eff07dc04bac9f344, 0x1bb80470304fced53435b35c3569df264a8d75fc53f70fd7b015d39885c9a90d, 0x1cf5c3aa549ef383aadef8788f0bce1e8909b9e3adf39a63887be4695acaeff2, 0xef064ff3721545e426159501f29e990d8f7ae92748e96a53d6f9c5b897dde77, 0xc43b544d903f06e188b67b1426995d0788f3f4bbd58b6c6421890579abcf53c, 0x5493bf32cd81c797924411dd93232eb44e645d9514eef60c1f88e02336d1903e, 0x5ab87b40fc635aac7406ee4753fdfecfc6738f86df26c9bdc9644d428b1934da, 0x6cfbe9e557b4a1c3edbcfb13a91408c2200bc49db4b8d01dba6300eead719fdb, 0x2701d6463efa335fe94f21b48acae6c4255aa482ffcff6dbcd0f5369c6da1013, 0x58def0da152500ddc2d3df78e8ee7018ac7229def9172cdb1696e81ee1b5fe96, 0x40cff3c20d45ceb38b4a6d77067020ea2629fb183b8c726e0c1bb63e25f3f9ff, 0x4831116177c5d4898dd67cc298500ee2c0ea59add6c15fee638528cbf49b51b4, 0x112910c429518a3c4e9b5079b1207c84d575ae6391198c0bf61a84bda84257ba, 0x36981706e744265305a6f4aa3ef001ddffdd57d90fcf24604d409d15e2d8c2a6, 0x5172e53fd1705572507547213269bbd9380bb9e12cfe365c414197853916fb9a, 0xf63e6d7e6b1339d8a726c4cc5559f73e7e688bdb606fd3ada867c9c6181b6dd, 0xd650a338152ea7503977618d0d70f007e18ebc7adb0d9e3f46a7e320b1fb173, 0x6b60149c25cdb7ae363e480829fbe8cd9aae0bac9ab5ae455b338c50d0c1e383, 0x5e7572e1d8c9d18bf868669b316e8d74569774ac5eadaddc530ae680c6c7ec47, 0x68f2f672c4ab9126c6dbf7679247ae88393484dfc1196250255c08679e5f7040, 0x4fb8724cc003fdf039fe15aa93f48136ab2f33a8e1c00f2f9ae8e286684642ed, 0x14930a714e33ff783f2609fa68c83e2950a9718eac389fa9115bf593536fd7b1, 0x66cf7589bf1489c9be15cb6e92c409964336183d0eb74414be3e70b1ad2cb6a7, 0x5e9367f9ca5a5668614f452d886e666e501f198c0c3a4b04782e529617b8c922, 0x6167517c875a5817be0c2008853a047f5792930dc9aec5096783b42ce44e2563, 0x6689601803376d185f8ad0867549efce20ec42b23d3ba1e88cea5d1713f9cebb, 0x2c097dcc0f36de312dbdf69e02cbe57d4d7252abdc633d386c5619423108ff3e, 0x5a29f69fb9272eab05048f6192830c287140ccc5930ff65cc818bc56ec1fd62, 0xd332cf65c24e33130c444cd17da27658c155803206da83cd18d879283561776, 0x20120ba266c2bc36cdc0efecad238ad8efe419e232c5e6211c56fb25fc5b2944, 0xd5d965483e262272522995509217312df7d2a25071a05c952b076b12fe1b76c, 0x6699aa44020e0da8009ebcb90817b58583fdd70548359b0392b1a23c8242998, 0x41e7ab56b14923e9eab1e79bd5a6d48df5034a24b59c4ee61fc91ab8d64222a2, 0x62c94ad1cec62dda619c503df755602b71c1ebdd63bd0b4b3ace18f3ad17fb0e, 0x557a307aba8d31dfb48e78ee62ce46a57e76efef73a373358a2f67b6103112e3, 0x5ccd83f19610d19133395f41b709aaeeaf6526be47290f38078c84232edb1024, 0xc556a1764df62664fbf37906627172a83b889153acc21266025cc949b89f7dc, 0x314d1d35df2d34e8dc404cb1cb77d6eec9adde13c06fff410f2b901fc3c4c8d7, 0x6cec48557337d0b8f05fbbf3eee885ae1f892ebf8213966af87a26904a2dfe6c, 0x29094741ad73b428bf6a6ee46a3b86eae30cd3b868ff8f9d0a6b4a4fde01f9d5, 0x100c06a161260780bfeaee725436d44f94a3e53b8f03302006755eedac191145, 0x6dcd591f10ce5c655d46e2de3dbff2e5fe840e2da76838293a1c923cb033f96b, 0x49cef81a232d86cb98c992ae7c647a144de6b1c47a1c9f5a8c5065f1d41885b4, 0x4ffa953c43c5060011087a217f4f410ad96b4f36a335f592a48b1bdbfd5fe20a, 0x208f20ec53eda66d19515ea5ef699f71d02e4921bfd068dffebea7b01f90fedd, 0x5db3e6bfff0e61734d17e113628eeb9a5a41d286c350e26640d77f9be39e6cf0, 0x224c8b98b4685af7691def00c73dc81275ff5d82e618dc6788d85709c6deec80, 0x2da33ff9061ed33d3f1ec68b939335ff9899be130aca2ff442c84df29a69436c, 0x60c947c315c0e2470fe3ade4fbc66bfb74614f6e6d3c53674cea060983f0bbef, 0x3cffb6390381ddffc38cabe8505b399d87a4918e75c6e20da1b6a5c9e5a20894, 0x31c2d0258d896f2a01099de41bd759739c6d8800f11f3f40d2c4ef95496950b1, 0x2bb230d4327007994f89e5a267a5a0329eb3ea3f7cd43e29371e7451893e0224, 0x2a7d2a53ccfe509f48366afac9ea0adc63317bfc31165fdb32e5798d51415ee3, 0x3bfd39d5421a321933d22a57e85ba6845e0afb177e3cbc83609b2cc5eef076d4, 0x29c4c80d52e06f9dbc2fc1d1a2d109f7e1807ba93099e1256a18e8d42c33b075, 0x46285cce4513b60dd562abe817c909cf62e01e40d912e63bd524ff6c27081edb, 0x4cd2cde9ccfdcb1a58e16c2cfa6efe4c73d2a6c28f0d5abe325a1ba2a71078f8, 0x2b62ef9f9544fc9d9a4f2b555bfa581b3ebab61c62c2b77f8303bc29f276eed8, 0x67a9c2f7d94ca0761d6d4e64a0ed2dec1437d044653c6fdc8c21e88abbd0d6b4, 0x3ec9b4122585ad0ba8e973fc2676c842901bd990fe78e79b77aff83acd3c9e4d, 0x6944c8b243f4f98cfe9fb69d59c11bd7bf5ce4ebf5472ba68873a8f6319c4bc5, 0x1d7a279678e2f158c8cd72464f028eff03c8a6d41aabe9c754a31e5045f9325d, 0x322410162b209f955c99bec7a2152e5327afbfa54f0bb335759fb4d614ca8f5a, 0x7b257125fa94fd49b957d4257b69c92357aa6e90557737741a23fc0af5d2a3, 0xdafa89b6a95eb10813bc54d79cb9a75594d42a4e90e9c984d224c591b9c0b07, 0x1e2c4cb6fc870342dd92cabccfc97863f53c0166ce50925b37e5be622bdbc290, 0x68079e81005d2dcaeb2e2eaa9d40624e0eabd95c6505cbad97e19e144b1bdf67, 0x2c4a14f22cdba7d29218578f43849cb9083b34726df5289234eab0206e020bd4, 0x5e6c8bceb8faebfc20ebf278b9fbd8a1730f7d50b4ad044c2d51f28ac10e7d8e, 0x3a780f71cdf45ea90440c3170e21d432a458a6eb7de5a97a79ba4c218738138d, 0x322055d341cff53c58b14cd1631c235bfc1a2b6c72d5e521b4319c500ba61578, 0x522f82f97ede4bd47c2724d91f1717ad8aceb8f0cf264ebd0b92aceb2d46bb6b, 0x62fe3400873eeaa69a8552dcd8206132b80ebd98618c021498fe32bcf337b48, 0x11ffa97b1a7c1ce59411e22f9f64cbe394dc122f63f88ca0268c6f2c2b01a3cf, 0x9f45419b759c0582d32b737b84ae34a8a1976583ef25ea75678ec9e2ae429cd, 0x6392583a395b80a99d7749bf30f6f93a131d8d29ad764666f239df0f95771161, 0x2618cda323d66b9b2afacaa9ee51c4a9a84cb5d2b61498801ffd2cc0b6477a2e, 0x32294f0aba1b3aea2ccc9eaea5847b18d498f47e58021b4e59767eb778e9ab2a, 0x5f36d0256c72ac06062ef1e859b1349b3e1d011fd3c893b000b98711515d9416, 0x52ec190e4b0f60e20de099eb6a1d458d494f86d1118d76ae29fb2d766ab6202f, 0x4b687e82ace88866f4f1e7d15862052f336829c43bdfd2edc9c97fe7d97c394b, 0x34c3f8b29634bc6acada7a03c85a2ff65ef05c96d2286dcb889256312ae666c5, 0x6cabb9d6d802f362a455a4e7e77027a3640e0958cd26a4f81da3fc0b552d354f, 0x6edd036a7c60393eb9511e4f61912531107d5ac887c6beb3455f547693f0565d, 0x5bc2598aacc480f726226f25b34db6f0d174dd1c63b6d645f889e5caa3b5ea49, 0xffb727da629e2d19a669355580742df324d04bb9e56c416768c96774143f9ed, 0x1aafb51e61d83e1852c8ecff22de108318d637fc3f2b700f7d93cc70440d4d7f, 0x44d13c4b5ea3d1533112bc3613e9cd1cfe81009ec3376f6400ae49138e969341, 0x5ac9a710ceacce26e5dc59906312b0223e1f4402aec452fb6645959e86374b0a, 0x64107c6879e3cb1583809ec8c428166ad479a4eb3e2d2856e1556d0b857fa1cc, 0x53119ac0cde2dc94c6737b1dd36b05aee718864022e144e2ee20e8dd7becf7e5, 0x4093ad69debb4ecf8daff986097ca2feedf4d40bd0a34945cb5963335764d540, 0x68fa2388f6a26a73d8e967e2d29dfa091d641c06785362819ab13f38140e8de2, 0x22c8952984bcbc40a022c25103beacc982b7fae220589f1fe00f16adc5362bac, 0x174ce1bbfba42172ed91d94d91f29c38f6ca1d7228c839a328248db470195a45, 0x4ba33bce9a7598424d8d325437acd445cf48b04e67fe01855c25a520d82ba02d, 0x25358656a0704a1fa5640d8fb108c351858edd72b2d31353cac574ad6c00206e, 0x5bbb0b544ea6108eeef7d7a999ef7a2f1c301938960b9c37eb516769d711008b, 0x73426fdfc4e5a70ff208722ef0555a410d2ada164fe3ca19660e83df581ecf24, 0x5acb965991aebf59cd381140b40335ea6dec175c11dd2a6beb8153a60a9631bc, 0x5f32cddb3467957d59df9ef29add81595379aa00dd8115927a7a3a6f0016c0eb, 0xc03826f6ad870786ec7e1236ce2bb3d2d211d7f492aafd21d64e2a0350d6a94, 0x4882b4742c2cdb915488dc643433bba0d7b30e67b3cf5dd9a2eb4c5ae1edfb18, 0xf12ac67405ad4bdf9c23118b440939f995cd7dbca4a2f15dc9c0480c6a4faa1, 0x480dd9cb1826abb66d36ec8781e90d511ec23147eae15f87aa83f1f8ce671923, 0x60d2f9e4745ed056eec10043130bcb3329e8e4f651b8a6bf49d98446eac3792a, 0x39651dccc6700719f1bb3a8a949e69e1ed20da097d301b04033856028da17a6b, 0xa6ecf572490d1393981dbce9e7183395da9d683a66051e2fdef1da7ba2e999e, 0x5b80d34ace8b7c838a9700851b973309b2af62df12f8cd6b889b006e5d722a6b, 0x330bc1a5573dfe6a113c2a2842e0b0b6b1f0ca49b4661538038ba4af300dd501, 0xe92861dd2f4c4703fa062cc4f79797bd0e1765a44b199c9c397a3a09ecac183, 0x376134d82b0d432c4393cd528865b6e44d24c69b18be8595e8d8c5c9a4db5beb, 0x6f95dc233fca4a2a17fc64de8a5a8211f2ea63410e314fcd68c59e6e94766014, 0x14fd9639eb8dbb606d23e51ee85a27da78adef5f82bf0bb46112d350c03751a7, 0x45220db482f2d92b994d33cb4a4f5cc7691e5becae8f4820399394a8b167d16c, 0x31ff3a00df6bc734a4f4a55c63c3b5a133a197f070e79c5a243ea104eb640a42, 0x40430ad1da8a5b4d176a3b0f4f7ab522efeeeeaf6b25b421d386323fcea4ff81, 0x2ab1fd7f5b53bd42f8bd76c60799851eeca639a191450339634f3bbc7e55fc00, 0x1ac41f3ed4ed1148650270c1ac0b4110e402233236bf3b26104cd14c1f64f381, 0x435827d1081047fc2ab589bedb377f26c9f3625b20b484e5e47c7384c4379b5f, 0x6b06428ddfe23b9cabce244991cea94fa7065cc433966e0bf3a6cba5a2d617eb, 0x7ea7d0f88f6db76940612262e3fb089e3fad3aaf0c5b530080963f539998c97, 0x2224dff5abe3608ad3625cd33905389a91ccfc403d91d48ad7b54cc23797e97, 0x53d1e17b29dd745e68af7d931e5be847df292691f1ac1ffb0d71cba3ab2454d1, 0x3b023bea5cf542055181249891c91bd4a2e511ec0bd4e572a5e658500cd31579, 0x631ca1c615b82057a0d8877a9c9802a7dc2d569516c3e4a1bfb133cafc3cf7e1, 0x4c811c4acc895cab619810dbb15ed5b6166ed273dc81d41d7df8fed15dae295d, 0x402d1b1aea5befd8beefc1e90b724a8283d608f416e83174a4bc8633582b9500, 0x52a2ec308d3174edd1e9b4f04417978e2ab4fd485b4fda9c0509f7d67d0ddd38, 0x37695fc0198fcbc427bd91d935e9f513d68b444a06852dcfcbe79b02e96b3a0a, 0x155d2c94008b72a27fcf4b91b56bbf3ae45604d28319fd46aece940b989c0fa2, 0x6c509b7ba785e6748d279055f5f1e73e10b0545b62d9a186dfb18c50d8e83afd, 0x59cba6498f56bb0e7ba607e4ed23d1ea25f0827935981d47f59a9cdcad850875, 0x6170a9599ea061c857542d39839422626e3640340ad13e97650b59fa23cb0b5b, 0x2094b27c56d0c13b7c7f603f3b7890ae1c4108390fc391e7f08f6ac5da5a41cc, 0x5b65f827d22982c49003bd2763d08bffc5eaed058cd2f8a4e2af3f3a58a55801, 0x20ed4c0a1285c6f047969a1ece25d257d7f0aea134c64bd25cb84720ba9301ee, 0x3c74a27e9202192f719031eaa160e37bf906c8fb72d99aa5d1b93814d8abd672, 0x708145622eb5f8c3788e44c1749bc60a2e10d45965fde84a56b76abae20c2640, 0x6f024611d2a6ae620082187a65576fe0296c24dcae9e33b07012f76512e5240c, 0x638cd5a7d4aae135cade5644a43b4dd4817234ccdb7123c1875fee1e279de504, 0x2cfb244d45d6f1ceb003905dad9a6addba5942ac19edd1197e12f2076bbaa773, 0x1650d7a123bceb137f88ec00b1a7a0e02a01ca760d96fb0cf3baa33c735e3d68, 0x284c46629e21cf5ae40d6c02e8dc33806734a97abe50d90900814aaa61c46cac, 0x26e7f041c257eea2fc772626ab942e8f50c21090ea245df3e3abe597336b6574, 0x30af59a5f90af02af6d301c065b67e9134f2bbcf717e85eee0e82e357354850, 0x6f1c6849a59e881a4c164523670802822028f54e5acc05996eb9e0adb76ab838, 0x2e92f4ca61a943332a83f762c5a277a01a0a7073d341335881f7e2bcad5f7816, 0x7b4cb5bcfa610fabaefc6923a8480794bb0be22c6fa1ab944e5b6f97f31df8f, 0x99dd359a73dffe6145e2f489a98097d57be89f4f30aad4458100eaefeb1ab72, 0x71f5bd2a16ac1a760b109b81026c5e11e655d60e87bcb97a69f59ff7591b328a, 0x5c49f8b9c7e41cf04788eb8ecf143aaf3bc78e477c83fb436dd11329696093d5, 0x4de17c4310090456e08fbdc62784d5946e1a4172ac28ccd290a218d92d6f9ea9, 0xfc58a2492f7425b0ae051256f07f74e655739803979ad389a2d888a1779d1ee, 0x7af794c2533221ad7e481edcb976d88f98b14a3520f5882f23b2e905e3aeafa, 0x45283f16a8c0bf9a769622ac730a9d97cb802bc221ff99cb75e4f6743e95950f, 0x20c1de15fff5d9d300b4c245e194acd2b2a3ee324672d879bcdd8db91271e8aa, 0x21199d4bbbf66dc7e583e8a84bec9644f2827768780df71df650c8a14aa103ee, 0x222d2af0abfd01b9ebc4fa0e0d4dfe22b1bdcb8a045bdb220ef150913c49c239, 0x4fdc66f455b3f7751c9dd04c1b9640dac3f745417c1291d2a64ba6a8e786093b, 0x1d01c4c580f3b0dec4d8b64e5a999c2aa242c90bfe771e4e23201a076d2ba9a8, 0x4bc9ab72cc37ee4f50b9b0209a617c7aa0e40d53fe94ef4659539cd118245051, 0x23ff0dcc2ad65d7a358f2d8d2cba5ef29e4cbc244ae2bf26b881d0e991def09a, 0x101e8880e67bf63c2cfbc363f3de532691e30de5c627090d80be818ad37a7294, 0x9cb04238298d7b154b4dfb223c8aefa838f8164576662994756515225663281, 0x181f5a35a4c76229ab04e6e53e60927eaa9263aa879ed17f53416b1d3e31595e, 0x418744306b15ab840f50593656036fac658da34fa4f38e8f1656c915b72f3cd9, 0x25bb49ecf74935c2acb1d82688edd19a2627338ecf8b0ab2651c81b4f46d4c1d, 0x6243560364d89490fde1cf0c14cbf97195f6951900255bffdbb50af47c21b16, 0x23665033ff3c2540f95416c832018ff2126ee27a76aaabf270f09e78b395c975, 0x5b34402a56595bc47ddb539fbe7fb56714b9de1a4c97e85a6edbb2a0fb65503, 0xfb96b7376342f253e2791d6b386833d25196ead59f7159bc74565dffc12f482, 0x370e3d59e32a8588f4b23363be0f89bafafa3a8cc42bae97b9fc6ab46380062d, 0x28d64dd52b7e118c0e6db0f1b9afb121d053f5522d41538a2ac85a4db30ad629, 0x5ccb40f0ebd8bb4a88bd3428ad66eaa9fc5f64f87bd69ba9e6458a5569ceee16, 0x6b8546726ef97085e9878ae3ee4e250290c1d5ed627d8982746198a44a7e2978, 0x2a6d28e3ee74d037b17f51e43d54a0bb900c695cf82a664644dc54bc3ae880aa, 0x269c586341ee15ea8c2a32215189cb4a6b52e775c41a573d869290eb44f93495, 0x47cb35e7dd7226a01d149bcf67f5b83447d0cf5331d7fe84038deb167a0c664b, 0x263c5d2b98aea5b4deb9d524d78518a80e5b7f6f8b29376453a8ab7451a9611d, 0x2556f0dbbbf486a034193616c95a5a84ce353e19a3276b0edf9710a33285, 0x2b7dea2b41489390dc654bfa115f2c7650e38171258564fae30187ad9c365821, 0x1c532f6a553938fb4e583d3fc77085f257c355f741252ef405adcd1eec8c7ea2, 0x3f1e016116738ab1172322ae1015e610324b442e86233ee14dc4050d483a181, 0xacbed897a38f1c9b2301a4b203f8f678814c989aab28c262c1f24bc35bb9a9c, 0x717a275d8b5ba990f3f0cc54f0d03f19c4e000c755bb433c826e8592987aa9d8, 0x4bd6c634bea601129995627414a91ec426cf74bead8254bc7bb6d99375b967f0, 0x688e92d05118e4e0998f436898c12cae77b4b787365e2c692293c0fd35075fe5, 0x66371a904ba30cd75875f2358f545986d456f976c94ebbe7aacfa9a6c5eb17f6, 0x508c2e6013481d2a06b26c096fa6e708c644df60fab0409e8a80551ab5cbf47f, 0xf7f3674e54ad5098edafeb0ac7efc647971df69cf201e740a20f257589b8bd7, 0x1665f94c17494b61e9f5d338337805e18d44c983c140be4669575d6737b15a22, 0x50e73d6c5a7517a488db30db07deb8b7c2e834595972a2659a4596450644d576, 0x4f97d69167d26ce9d00479099f71a2f73462b240d712cac2277bde67f5484b4c, 0x27a003b350c290194d3a124f3d8ecaff214249841620fff7486837501ed6089e, 0x3d1dbcfc104393e984327c85a40484bb8e45d8d9c69c67c5889cc94f1245b457, 0x5ea48ffc1fc080448481ecec1a5f081035cd23a526e5d360bf00b035bb970fb1, 0x4e14c961aa87f9cca9f49bfab99496bea2d1cbc75939ec7cc872e24656da840d, 0x2894076c4275404f010f8d2b42c173accebf2633da6db3642405bbef6ed68b4b, 0x4b1d473e5a75a68146a6616c83d4e307da4335ea90d6e71960218bdc832578a0, 0x56fea64a28fcb699feb080c5e7ba43d464ceee28a92876e3bab2dc26e578d2, 0x67646e259f2789a0d5e05deb34e753422f955429aef62fcfba62d1c80dddbc9, 0x3838bd2903d673df28ba52f3c198e2efbe63c068b0177b77e0c62d1b38a44013, 0x439fa63e90352fb148b626fd426f4256fc7273999350ebbd28b9e8160b0d372e, 0x5fee21078a1814487480d8712520052e83764b76cd1f57be63b6553f9e4a3bc2, 0x125f89be89e382d8c36548c272bd41bd413dbe236adaabe9050577e2cde38c66, 0x6cbacdb8fbc7169cf4f47d08f138906bec53d6418d56848541883fe50f093375, 0x4fc8b58fde960b84639a90396068eea7a81c93ceb099edc79aae0acb24421231, 0x2e1837c78c392082179e22065a8418ddc5ec5bc4210aa145d9cd480f59fe7945, 0x6528f136d25083529ca4a0fbcc969e11b3cc8d98a3abe82b90ccfb26d15ac585, 0xba4c858e2c2094725cb6f66a9af1ac9b30da7a3aeeb8ca3a27f1fdd03f73e7f, 0x6e98a652a693a73c55081a29119a8a631024450c4b5563b07a426527b2acc245, 0x65d5dd8f4bef40e9e7bf26684db2100be47eec9967735445d76194a7ab2731a0, 0x2d4aae42fd2bfa07db59a5f26270bb0cd283b30925f8729bd407b39cc0740f4b, 0xf613e07f15f3dc613c27af9a1b651acc499c02c771ddf1fb1c8b3ed97523489, 0x1ce6c728bafb5d808dbd2d27ddaabf0a4c93a70475bc1de61442656b4e275215, 0x56014400b99708929c780264fbecb8f702cb39c9810f167681a7117296740e2, 0x3f5d76854a781d672d48608b873a6725c674c55bfe54181631d5e1253873a6d, 0x51377ae1275ae5539faaf5364958eed10f2d9972c06e5b0ed1e3a169f57bdf80, 0x7172052e2adfe44a56f9acd1e916a29aefe90e509d9dddfa07942669ce487486, 0x558aea3f102723e069300860e3ec1716327348765822c7bbe65f1f37fc870d27, 0x149841a05762b6c657be55c8608ba68a3946b8b14ce2431ba362a643d3a6ea05, 0x268368e4bcbcdf9422385619e1b0a39025c07ded86d6ed20074f4a0e4ac0e1bc, 0x60bb86e67783c6a46bbaebc2b34596c4dcf17ee9364663d0f84f69c7340a29b, 0x5d8b8b992bf035f41e20c5919dc160dc48572cbbfe7d7423615cdb4cca6acd99, 0x25edac4ebc1a5507b1e586270f880ceb2324e593df2f5a005b34bcf21db7d70e, 0x3578869cb1bee4e54f17b510165d61e56f02375f2a6c1c88f0aa4acd4cfe065d, 0x40dfa27d334dc67925f289e9c8e10935c44887d7c735a0bd6cf2282ece58cd09, 0x6efae927ce9e83bc5868406c2d7d93db6580b7b69373776d68ddaa46f6703a88, 0x3c1ceda8da80bdef1ac3532c6047652128621f7dad1072778ed14f9658f65c99, 0x230c8dd9e4062555fd087fd806bbe554f0adc1f893fecf17326697cf630e2bda, 0x615b0e6f3c11bafaa1a0dc6cba3c1db967b62acdff7aecbbb48efedda2b597c5, 0x56ca573c7b06b18d189635b21d74d4b5c0d182ce1ee77a4c6ae26542252fcca4, 0x427436a5b56af5a45c374c4f719e73534f64477255758fee02eb3c3466024a35, 0xb5ee26b3f12a7527d421519af8db37a0ed904334c45fd2b50a7fb84e7df05d2, 0x4bf563835237e3ab26b997c188d0952f8e42010077038aaa5d034b275833e7ee, 0x56776ecc01e1e8d565058547adced1afe12bc819f078d58836e831bab9f12c92, 0x485f4ac6be4d94604a1838428ee8b44de09ed8b4fe9484e30dc1e7f977e98855, 0x8226a92b81b872e76699afeb131f7c4b37ce80423bbca9434902f73bf992e9f, 0x66703f239555673760d5849448123db8dbf877fbd13027ce5f3a4cd269d15603, 0x61f7f43c2c2ea45f629d02ac4d0f577c11b90beee9bdba4a9908eda9acc14246, 0x166a1a4b23c00a78e3cf23fb642c7457f3fe441759e1d21e65627da63f0fbd23, 0x68272b576b7b716c3ffeda3666110d46c26dc81d2e4847803a92eb50c8f7f283, 0x540bcdcaf1415cf4af7eab85bf35901451d135a28d179fa9f46721550ff87483, 0x4e237470342723f1b8c356c4e4adc5895b1ce109ce27095027f4044e6c53a947, 0x508457aa621ce84c2ebf115958571ddd6a65d275b9f36fcd07582361331ab9c5, 0x42d00b0bd70bf9ff7ba745fb71215ba3a3f768b2a7ecd9eadc4968076b01d2e4, 0x129d3b9d12d7698e3b9094410bf771d8b06bf94bef7bc7a274b49b0f9b538aa3, 0x15fe2c7e892596d0f34c8878153f8fe798fcea977ccaf2bde2d933277aa29a95, 0x4d76e07f6d268364462a0f822fac37f09c8845fce32ddd9b556f56f8d503e685, 0x1d417f28856a3238563866283dbf7a449bc1a9dbb13e7a17b0fe0cc7bba50cae, 0x64b22e001e0333b610321cf1b02ce6e779fe65e56dc1cc816b50ad61cd6055a7, 0x53f01eded3e07168aab270f1e3b715150212c5808df3d50bd1e27fd9aeb399ed, 0x82c786b21b8839e54b7d5e2d780399bfeb5ebb31a34f3fa0cffc3bcc8c36ce1, 0xb33a1e6ea72aa7e35cfb32f1fd843b46d4a415eb8db080a6ba171ad66a55e09, 0x2fc0f6bdb9cf8c8e2861e9faa4b689928410e420acf0b5da83353816226b751, 0x1619cb0bc286876a0eba3c4de464c7211eb7ac842a237933f71d6c82a95bddb8, 0x3c58cba330fac7664e3dea69ae7c9f7d2cd3c0db40a5de84eb1efa90f67fe529, 0x10336da8775cb574906e1b8ee6cc53e669c6e4a1d5d3ae5dc8941b51fa5600e0, 0x51603039f7daa8bf5c98979a7687b72869df6f05f8a421b95ac5bf4f6871c075, 0x73be9b253cdf0acdf14f9d6cc7f7a1ee011cca35553afe0095becf527497bf6b, 0x1b01f00707a9a5fbe784883a4b9d4f4679ef081f6a3d10249fbdcd0e5aefdacf, 0x677f47415cf2c5bfe0efe8db51c877980d1f4a787b8f950ca2ab87f974a1497a, 0x6c3947a132a76b977979c162d3b40fcfa0aba60f6e769db708315c113a1c099, 0x4ee1584c605b4bc718074d34dd88f280f14f7dc68409f682db1c2d43463e0e66, 0x327ec59c002bb3ae3be7804887aed1f874998f044264c51b2fa44ff97bae7299, 0x593ef6785476b95021c7e556437609dbc535c0d63b1b36b516e7f06159d717e2, 0x274f6c90a35faf9b6c3301b0e5a627b9d451a27f75676c5f3ac6d43f5de0b48b, 0x24c85edb6c3ad0e87cdccb2969e87d4da6ddead51d511476bdfe520361a5a348, 0x4fd062c014fe68434e71758d526c6d45d2012b441266c72bc2b01c8409139613, 0x481098bc9471d2654c2f7a22c0e0701b9b1b8d0197fa0f92de70c819f64cc7ab, 0x70f2653f5b8a59f9547395347996422add6cf730a6cea04dcafd7129739fab34, 0x233edc217ef094f3ce1a2691822c925118e579f29cc596a59d853db8a3f8d809, 0x350e16f6c7bf3118c7e6ac0192ca2729c9a53f6c89a3b1b5aa7a41a1ecced0e, 0x5acaddd46e28e43b261a9344027d31dcbb4446b05b031b9af72bec3c9fba3f5a, 0x6fb298d2286b1fdf0c18274b91c3c4184e8afaa1c3ab4d49911e41571f79fb73, 0x52e05de468ee9471c226471236b833b3243b8113330411892d115ed84c596b2, 0x4afa85c0af791c7fce3285dc95f47c8f9342df978517d40d354723f86705735b, 0x1f43503e807acf950a040103c60b70dacc526f9e81b94f3e984a9606a64de7b, 0x2af3d8c9add9056f7235b75c1ba2020dfbfdbb46e4f4e94c3ccdad6ffa6d8a69, 0x71c9b199ab5157df68ccca7b4b3ae0cd415ba9d65eebc67dc1de28cadbfde155, 0x6c204d1123896f208866cc1b703766d7988026646002715c8d4230e08ad94287, 0x3743894d457e356cd6464a02bc96b72e7f932c4d48e51ce089ac26e8e29f834d, 0x4e92292ff4e5d8712948e7e60c46745b239c2c0a71cc98a78aee341760bda20e, 0x100cb5e948b6d3fd8c01e954914fa92c60debcc09c121a6e6c9c499b13dba191, 0x42862dce5348e2e2559ed5c76c08ce57123b173b65ea110cc0ef1498cdbb5ea, 0x31d681ace538412fe1d36dbfa3bfb5df77fe8bd3e1c47eccf3d66b883b16df51, 0x4e765c5eaa384b749b43dc191167a259fa66c7e17a700c809c9755f241d5458, 0x6f5469490e073ccb869d957bc4cb13eaf060de35a9c5ef182e4fa32d4c4ce4cb, 0x43ef735c8d7f863a4ff536a1bd160b2ead071d41bcdbbf8871686e3c0d5bcc5, 0x73c448a7d0f032ee00affc930aa86bd6a80ed2f3e2373242bf5eea8094c24931, 0x4a345eaa321b6033e8dd964ffbe0dfb17be9ad40910003412e176a424500b629, 0x5f7b627373ca005355b3ccb77b4075394b494abd16259b88a59c22520dfc221d, 0x30985c729ae518166736f023a820ae7ee240dba306ddf45b865104a5ae06857e, 0x57c1c1591136990bba37f2d12ba8a00d05c6b3efd53499eac11869b3df1e8a97, 0x309bdfe762046ebd824db048d9420f5702b9ce63c5fb41ae12dc1d0a95664ecb, 0x35d927331e9f12970b2096c0e91ac7cbef2eca47f096fdb1742068f7d2704847, 0x2e5289622ab1e2f9fc9b3735aa3757365545b66175598c65f43087bf843f0913, 0xf46b92f1ff3c4cc5fd8c70fdcc60eaf2cc2a763af51331bcfb6592da78ac306, 0x48693791d846eb00e68e1be00caac751f00d528d1ccbb661a5989c46aa12a343, 0x53802ffc0c9dc5a4d9679dc7fc990b76f5f5739d0ff8ba1e49a320a330954a6f, 0xe6adb57b27ffde36187dd2bd7be8554334214ae1e03f6d0c97b1a18af6ca9fe, 0x4b27592f9a51ee5e19e55f6521414c9832eefe478afa1af9f6b5df8578d8dfaa, 0x48dca9be67605b94dfea0618f0f2de9cfe3d99a11d768830e4f1dd5df498d8e3, 0x2982b1cb9b005327c53386c7fcbd1b7baa80915a23f1b553af5572a10b986f7f, 0x70a6ff268a56ba63706dd7a80007f01bec82e278916e826582a5843229e218aa, 0x58ca58ea0caf99588b2782503e87c43b4244a9086c01d6b940a663c40559c8b5, 0xc0f6bb9f8eda3eaf94d98a27b9f4c30148c0bd8cb91cd005c22754e5b9754d2, 0x1456a568ba9d4d9c7b58432a6365eb23095447bf9655e225b4a0ec7bb191f4eb, 0x69bfa3da30f03b1cce0334e0c3acf414e10c70ea344a6ee54d0e7997165db8c, 0x301247a34465e01331d91cb91cceb0c118f7ea1f9c22b43d77c0f5f850323623, 0x57c05efc60d457393e9d626ada50540f377e0c5491bbaac5d72d97c0a53b9c4f, 0x564d0ae687b7a75118298f166a924c6ba06e93b41fbdb337a513b41fae78022d, 0x64f98a88f9f2d315f5c4184df353895b4caa734991606926e2b291ba3c80efcd, 0x4368e9d97f59c16b4085b3032fe4fd8cfb8c641f04e123eabfc8ef9589c0316a, 0x3ce3fa17d26db02a05045cf63367e865791042a1b7b09e5e78ee70d0522979eb, 0x26b0a216be0f8a103468a696bad359a6b9fea56a138fe53631bf556d0487f4f3, 0x30fcd0445d9a47cd1ef3ace8f0267dcbb1520a1d5d3cade72694e4e7e6f73987, 0x55bd00102be08011a6ab2e889abcd227a1ff70b2777fe10150a9149a91b14d41, 0x355b671705f096c614085ba7fd12964e7a0a9add963c39103194bf54d7c2c5b8, 0x21cdd8f42052b33add4455dca754c93c667e670262981d118064de92398dfbd6, 0x1740766dc9b891f997a1626dd00f939539a80fd16108f440dcf455b675af0b8c, 0x6180748956e241d2a073e5ffca8dfa534a49b0f2d807a218fecdb90eabc0ad9f, 0x7300895d96e5939ce390fde76fe628ad08297d2920436df876ef12aee92c1bb4, 0x4d759515e17f8eea320a0973ab551325c83c93d6bada77094ab30a2d690fb8be, 0x39fc23c635078f04f1c4d8893c9496d4fbe619c8d22cd2b34f3b43f8a8698220, 0x6cb202dba1fba3ad59bd1278462f8c3cd5e2c50f0ae72538adbdca1fdd26d070, 0x2627d1175e6338fc80bdca9d3ee0a6293357e62fd6f7bf9fe2700f509f1dcb9f, 0x3dedaf41db45e0a3b7c9c67ba12c30989f1d267c6bbd693650d06566f2c2197a, 0x15676994456e031e5287e7a027708e647426c091b881bbfa705b6e478a66d3f6, 0x58fcdebd17c729eeb31f4a1ef66029f1bc7cb6ff67de80c345d4b3c39b15d621, 0x2bb86e6a69a7f95a9bd8f6d477e20cc23f2ac0cad32d29b0142202d647284f43, 0x2289c94693a39d94add85dd61e0b3310db15c3e03d3a9a3931cceebf69dc7737, 0x87541a3b273d8ec873306f20716c15d5199b3a36a4b3b54763c9ed9be1f0049, 0x3fab5968a8ca777307d188844a7c044d8d64a3180cc93d54e7314268d71267c8, 0x250de3d0d02d31c8364add6f04ddd6d8eafe54834e7adefc0efcfd61071e17d8, 0x808b5731e93853eb8bb156adf3fd74b89f5c72020517d3a34a9e5b0cebee90a, 0x6032ab88d9d547dcca8d13dfe398930ebf10c0d8f3434a117892799e145245e5, 0x1d97e8d12e0b0f6bda8f0f0458f40454d926ba35fe804d2723be0280ea5a203b, 0xa1b3d29ebd36f251568c83d1f7a4d9e92333782e4ece16636ae42d359f68c3a, 0x79380e7f995e698d80a8421fdae8ef3b0cb1de52873d8f23e5aeac79023de30, 0xe00b5df522031f4e27fbeb2b88bfbe7408e9361b57208a01607e4c8a080f502, 0x35dcea04ff8597609764e100fac181dbd951cf5ea60f128126f44c1c44e3daba, 0x3a3c596d517b592d099fe030cd7c88fcc1f76d6092009a7ab7c7c236a669000d, 0x628d71f82a2c788ff184c8a872b618ff547ed652404da931d23e79999ba691a1, 0x31f3abad40faaff29011da6aefe31a7a3b681176fb3d5cd4b7f96a39659343b5, 0x3aa2ddab1c3fb212db171eb839e4744295e247a8dcaa01f1641c78efeb5f30c4, 0x4c3e3696896bd22d8309581fdd6373464a7ae6c28f47bdba23ed8828705b4f1c, 0x433f4a08f3589828e51e866ab35c8b5c985d731971b9dcfc8ff6af9df8053c01, 0x2c23e1fdb1a483914fe2a8fe6bef4ef513acb58f93a4594789198993906bb3fa, 0x23f9f1d84ae9468e637e7c79513c707e1e60dc96747a262f890c9de501206451, 0x1a046f2c5197b78ae4d897a77c42c30037c9b52965e3aa8a6e1e7a941386e361, 0x12551dc8ad0998aff43cc11d5c5ca9ffcafa0c0bff413c7871252f6c40da61ea, 0x3535ec5110f444a5a5698bd3b6f50a1580b6c9ccbcb412b021005fa73c707b1e, 0x4484f3d4a2decc45396fe27391d4efe2715047d7d355dcb40d49ab09c790c318, 0xa6fe4bdf9a796820fc7f51ee2e416775b8053dc8bdcfeb8b27da18fbd669695, 0x472239b4fc2f03f34e04b124398009ae87df4d1a67a5a64e4bbb51cc300dfaac, 0x2a1b566ff6755a45983a23d03fb2957f92866b6e34fd46e851bf056fc5025de4, 0x235280b5e1ed49d4dfa6633303843cac3597c097aa3aefa7fc8049a93ad8bde7, 0xacb2c4650c240301b121a794584fbbec9fc91b04b31a6d5cecc690c44a39577, 0x58e7f08c0cfeec6dfe9b16cd837914ff00123a18055f7f117e17df8eee8ae1ef, 0x3e3e9f6324b2bc8b6c0ad411d9ada6350f12cf6022efab92201cbdc3e891a545, 0x66ef6c0b8c2d23c6d3eab2633da18f9746bdca699b2aa3b6c3fefa922ce9d9e9, 0xbf0af5c6363717682ded1fbe09065768a6e0070ccd46f1f54b4d16c25d2141b, 0x51523158888e7060fc1a633f7c02d4e842d0e3f59ba7bc3366a1c5031e82b4fb, 0x4949167945bbbf6396accd40fb4c8b55f56e9b9b41a8602d971244d9049d467f, 0x2c50b0585e8bc186e3bd90a96200684a4497fdf346c24865f8c0cf99b883ce6d],
    M = [0x6963af62e003892a5d1d50074e93217934daf23145cff68aba2e8ba200000001, 0x6a44840c3b7b082cd99fb0b208d45b5a376dd6581553d4546aaaaaa9c0000001, 0x6217dc5a0f85429f8dce7bb808267bb5bd02ed3d9d88753a3b13b13a3b13b13c, 0x4a867dda0877876545809d29bd0c9d27fef9e96fa4913b23edb6db6d12492493, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6a44840c3b7b082cd99fb0b208d45b5a376dd6581553d4546aaaaaa9c0000001, 0x6217dc5a0f85429f8dce7bb808267bb5bd02ed3d9d88753a3b13b13a3b13b13c, 0x4a867dda0877876545809d29bd0c9d27fef9e96fa4913b23edb6db6d12492493, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x6217dc5a0f85429f8dce7bb808267bb5bd02ed3d9d88753a3b13b13a3b13b13c, 0x4a867dda0877876545809d29bd0c9d27fef9e96fa4913b23edb6db6d12492493, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x4a867dda0877876545809d29bd0c9d27fef9e96fa4913b23edb6db6d12492493, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6]).* from "../poseidon"
}
