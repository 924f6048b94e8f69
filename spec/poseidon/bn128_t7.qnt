// generated by tools/gen_poseidon.py
module bn128_t7 {
  import poseidon(Q = 21888242871839275222246405745257275088548364400416034343698204186575808495617, T = 7, RP = 63, IDX = 0,
    C = [0x2197703fceb4cbf07c6dbf46c4ad93e7d14e554db66d09102ff84824743fe4e7, 0x1322f0fffc7e4854bd8b5fc23e7106b51f59bd5061d8b565aca2fd3efe512f79, 0x19e414f80380aa2d222133118c337d82a8c5894c2f88861ee46f448fa9d61359, 0x22241199a4df9cb7d65249d9562cad6c65f16460e79a7939cbfdd6d7b9209d9a, 0x301061735384dfcecf9a311c22ade327b51c78b211615f41c77f6d85e8a41b6, 0x229e1d86c1f2810f4a2633b7b4b5bb61b7dc5d19ac95fd8d379548ff2b6850ee, 0xe31dcf9c53209a817eeb292e989727c3f56bff65883afe5fdc28ac3dfbea675, 0x222c7318ebe96306c9d79ac11237263c6b8eb25272eb88407e8c29a358b40f2a, 0xcb416b42c53a829cf4fc823be8f4fedd12593394cd529053ff4e3604974a2c6, 0x892729d09594a8d8b1adfbf2e2ed75399dee612842b6db3d2d2c2aaddb6c0aa, 0x18e39e9ae45f14ba97a15bd672711ae124375d9f482a4487a0e334dee2d27c71, 0x2560c9ff672e6ea69dbb33844d0d22870461d18eaf0f8992d4d7ac649edd6610, 0x21bee2b8ed54b726ef17f77366b1dcfbda7ccf1e487f9916e5f963e814c57312, 0x300e1b28dabebdc0d4bdbc19be29a3dee4eda8425dd0c7c6e82fec147cb070ba, 0x2c44a5ff45deea69dd2961d67011af4982b9405f9fe38de4a732d2aeae88cc23, 0xc8d59fe1b7f55095e6aaad9e3b4e7b1c93d876ba3234dd1ac5ec64108291bfd, 0x6cf82bc5fd115d348a30b0c45378d90cca1660446ba049759fa53103fcd78b5, 0x2f80ed01a2118d02e2145111c3fe6ca70efdf95d8abeaee8829293347dc9061c, 0xbdfe7f6803e4dee7b026e079075908cb8414e3d651dd12fda67df08dded9e42, 0x6cc48ed882405595b34d39138f50bb5b31a963a0dba66aef17c19ad622e29b1, 0x2a67f3ba6d15949932ac5622cf9e2b493801bf16a50336a4518258bcc6867c95, 0x2572725a67c60718df656934aa78fbeb80c8f395aeb6a20cd833c4b14fef412a, 0x3bb7f6ca43545b11f19721265b416166579cb753330b1879b79685d1df0bfa7, 0x2412815e863f8f3bc28bfcbb957faa5f393300b25133e9221b8eb3156ed5c12b, 0xdbf64d58df212e4307871966de097a5db09a93e5bc305cebdcd0630f433af45, 0x274c06c01158e047ff4a791e25b7bb3db190529df8f50b6386273f810f15c6ab, 0x23cf40693f52abf0ed3d842f7bc85d1a2111d0abecfc18acd0fe3991ee5fd33d, 0x1daaa926528f3368f4e4cf924166b8bd3ff8daefbcf900e6dcc4ee63c4099698, 0x10103789dc9471ad718657bebb6781e39bd92fd20ee1a32d0de3ea2817a01555, 0x9bc25065080e6c6e9932e34bfde78d1085f19e9ffc8965a4660a4d9b6d607, 0x1312c727cb5489bb174e1dcb82588edfab31a2999b377dabece466e9dcd6afee, 0x20294a462c7d0c25aeb5374618e5e77316682ae3d726824f15f00f7cb9a7009f, 0x25e0c6be89bbb04bd8391c90cf35588f0e9d73fdb06259f47a05513ad7a23e91, 0x84a0b87e0b336c9a911069f89d875a38be313efc420d28b9ec287f28810fd3, 0x28a03ee29f612aab268f76241d54d477a1d97f5807ba2e1812f4d350d7c6f7da, 0xb6794182b723a12e0b35f76bd55a7d106ee6a4035527c4d329a6f33068d7eda, 0x15b9a698465428fc686b79db4959c8495b92b85122f6a6932940836facea86d, 0x1bfe52289f811f5c3619f14866138ae9a1279bb76e8cec9a8936fdc36f59df7b, 0x1cd574fe8d5e4c428b92b23a9717342176e1d309a7e259052c31bdc9af091fa3, 0x212d1bbdfaaf0200735bc5851a156adcbfa4f607f5da122e1f63afaecd38cab7, 0xb0479e28820e883d903a951f95b13093788e9e1ca64ddf2abb94b13fee9edbc, 0x110f5257c21c9379d73b76e9ca95c513c77a15cc8ee0ef726d8460d4fbbdaaa, 0x8c52e9401a9764f0c2487dfed34e215c186b6c2838e38eb5a50cca4f0bc6994, 0x2e422b4323cb4c0af46f4b0e5052f75744c538abccc7643f339440dc3aaeeca3, 0x2e12482ba160472d45549ff79cd04aebc4a327c4bb9d78c2573b835b05c55fe6, 0x124fa5f9c5a96d6cce92cfc73ea2446202f09100eed203ae4267aa637a032d36, 0xbf651f82f83ca1fa037a941d4e2a4b3e08f5e1603f933a1723adf4135796de7, 0x21c674ea7b834741cbad39b21b242ab9a5554c6c9f92e801cb1fe4382b619463, 0x214f91d6c4aef57e83186b57fd9fa48a193e1caf16d7f6dc1559d144a271b341, 0x203e2218389729c26c6f66213f2269c262785ec68c759599c2d8e3f68035055b, 0x1aa934198713ce17658f51293fad44b1c22fc80391405ce76c92b2349b7eb3a2, 0x1014d4e5ddd9c17b3c2b29684476afdbaf7fc56e8b799616a67bbc6678e45351, 0x33c13ed45b4762a47e1d2d45d7fc8fbf9d4e24546e20dc596911fb991710358, 0x9bc1c3274c569e7e5c5d77c51fe69b23b7e435138f4f3217016a2d70ce71d5e, 0x1803171c9dbc0610e38d8308db101d6a99ca90137f6ab8cdab2a91b36b63322a, 0xba6071aa98afec3fbdeb46a88e4a5d17bd4454c0e7da8c74b15b084488cfdcf, 0x179e90ab4b08a4ead281a8709057487e077b710879911f215fbd6e8ebf838e97, 0x1cbca88b8ab3f0588ff87deea978d00008adbad808e6510897238ea007f491a4, 0x2f50b20b33692bb0f62777de5e3198377d7923ef2fa8ede08831e10f7e9b9f5a, 0x15ba030e8f1ef6f260566fd6fcfffcd21a1cfc1232f7ec7148ff076d1ba68707, 0xdbe053da01aa4b7c0fad83a3cc966f0b8281bb4940f97a5516cfb9dcd543a6f, 0x222eca5d754afeca8997f31d6fcb94a5d799afb795e68d4d8b0ce6d839f6dd7e, 0x2abffa43d756ef242db7f584bd62405991112618362f1b29a33ee2131b46a446, 0x3c92524ebe67300d0dd0aac464f0e6ecf962d6ad41bf2685f077bfd788eb3fd, 0x282241758ade4ef8ff3858305288d3b4a52209295d1a4bc89d885b2f5dc3341a, 0x2635cb973d71bb3d2137bd81680dd3bc607fc5487e898c4c2d83c1dc2817687, 0x13c866aa66e8d506079dc24c2df7b1e691994887d35622f4cfcf014bbea223e9, 0x151f0007ccf42a7ef969f1b6f6315992e6594bb5344d2839fee6620b60e2c023, 0x1c1c6a5ebccee8caa4dc7ef18e194274f6e198d2b140ddcc97cb15c92ba1409c, 0x18330c9e67d62f7861a996d7ed69bba904b0dd459f2b254fc7cc53dd28e45a65, 0x26b747740c95bf139cb11bdf02fa63a4bdb29a90f158933a1822cdde5387290d, 0x1475676fb205084246ef9bc7234f312c214f426852dcb2ec7dc3772f579af8b1, 0x1b03ad9080d29b70aaf30bbc3200efffe73ee269dc032d2e32bd190767bc380d, 0x21c175f937c2f82e99735bc7c201284f89577b27a1f84fa24642eceb552f4455, 0x1192e0269a6b66a8c5887527aa4474c2de91cf8c71ebda835df2cdccdd4a4e4b, 0xf3a12c0ee52f0d34f2b4a0dcd13541b48aeb3d5121d311113bba9792a45a58d, 0x7fb521883bdf78b33689205b45e52269458a061bcb87eeb3b1e183c6d7eb5b7, 0x248d0e8051c1a965640c96c6f010c4931fe648b96f95ef6f5b8e474f64cf3169, 0x2ab553db9ead2c82ce91febe180529eff3521875f7e90a9b8b7a3c4de4877cd6, 0x211ee3bda3c95f1954eef22a0a82c2ede8444e42a72a8200bab6a133846d5b5c, 0x111db3b5184ff7412f79c129904a9cac4ee65a51c2062d66732f54bcdf767be4, 0x1a73843264cf9a3a1bb6fb68ef76037c4fa98337e5c10096c630b449ec4a5f67, 0x1c2e5a2d9332f65128c85358662d6a7c44353add09c27cd07da02f9144da855e, 0xe2b35fe1021b879de5b67a7458fa6188bbdea39e2bf468a1a24e3625cafff98, 0x2e568594e5dfbfadf272b8d6e8c99bd785c4fa94ce9e87fa8a9a37e32c7a28de, 0x7043c7571cb7dc5205bfda42d693527a4bcb58238ed6a6a248e7917ddaf0c3a, 0x239e18a0c85b845ffd6b85e96343f1a8378f3c691dadfb228da6ff7aa79efe1f, 0x25e247af250c564c00f5ff1cf1f2bc8606600f173cb65ef0780af9f5a1b676c8, 0x31ba3385664544e3e0801f1698b15033a6049b2504e9cdc2c6e3eb2fd12100d, 0x2a33777739e2ab0adfb1ca5687db1e059b20370cbeeccad32da5c3609431ff65, 0x2bfd6f0e9e996ba13749327b9c5cec69903d413b2df29b777d05384b3e7af952, 0x2d453d93fb36fbf8e36747ee92d90cad9e02e692d0748c07fd43eafc2cc5e823, 0x187bd8043f8642cda2b6bad82958d115818880eb80f6b730381d974ac5d5037e, 0x21aca605f92a48ac35708fe5140729fb35c3e48ccec441217713b08649443930, 0x173fd164f5224ac06c2e99f3e2eaa6379df113de30aa485e8bbcc7f0fd2d1e03, 0x71c66a6463c3fd4292bf1e5acb6de611142d73cd1db590e89b61b57d44d69bd, 0x44a40e396855be550d8ccce7b82ee2caaef6675bebe92266c666982ff72bbf8, 0x1176d9f52e12df67f087110a15aaf98d1ded293ffdf99599fedef2e51569e4f6, 0x6e8eb7dd026d257b15c6624bee2f37d5b67b4a671cfcdfee5797e8457b63916, 0x696aa48c1d5fe84ca5cf59009ab0baaefbb612e32c91d5ef306def38dc5673a, 0x853c33a9c7a7c3b355c92c75de444365db82d241eef9f3fac417004a3a1accc, 0x3016c0ba34678e0a67f59cf96ce16e908154f5f9802591717e66e95ba25ab77f, 0xaf008601dc9552517f303ff9e22c793a682caa93256f2f09a4f746542603b0e, 0x4cb6d76b5a27a5aae387cb647790318c25fc16f8d7d1855a38765f847f731b0, 0x2ecf70c372d8e5edcad49e58d47875f26933d62614f266e6b4f586177148565f, 0x1f393a6ee74dd6c4d52b0e7820a7132f8c4889742313c06caa6ecc55f3dd413, 0x2e4d4ce3f97bf96ff86b88e969d13e415e14721282769f7cf8c3a73723f094db, 0x306000ef24a7f5a9c652e3a9367578554ea59bf8efa0bd8bc5776460c18c1add, 0x26e58d6287678f3db9c225c1d3b93ae7c43a69024ebf249c8bde40617c2b3d49, 0x9eee09f873d1bf683971df4d7ce56c8f0b8b98ddc05b9612c0a0d317310655a, 0xf08879dfd4fa0dc11ded556ef01c6f94cc6f4d18553b08bcb1dd604392ec00c, 0x11459f7e9f0e3c727777e34d6d93ec28a25bd867171523bad5be0d5a20029eb7, 0x4e9cbb6f6e8e805a20fbd801a53b723f78c1f5acd227880f7f37f4e5b0528ad, 0x2d2ff32eb7a0c0266dd46bd5939c9a9aae88b3e9af5dad01a7304f9868f7c7c6, 0x23b77eb0f27e950200a590447d645a723d9b405fa2538a5cb76fc5fdae16d839, 0x2cd6d2c5658ec0792daee2067e2f958d6849886318a6c1c27233a469e9998c2f, 0xae1daa420bac90780d0c83026bfcc84af83953e26eca839da76861e739855e7, 0x2b495b854553d02a75b68763bda6dd8ef0e81fe32b5cb072d3f580a914967bf0, 0x56fa5d7ce2c32bc5735351d2d48af5d6c9256a4b72e12a35640b53ea959e296, 0x2ecbe1a06b28ec78ea7d22df11cd224a0e1a0ac7a3476c5cc3c4e50da961a87b, 0x143053c1c387f9353bd677e5db6e9975792bffeecf02d6aa0fe8f627579fe6cf, 0x4064b25584499a011ea74ac047a8b37494189bc63342bb1182e234212d42bdb, 0x100f61f6b81542156760a6d29af5dd8644c82deab5b90e6ac66de8b4a069564a, 0x18d331b2e8180b7aa7055c029fa77aff4f02b0e2a2078bff67688ed65b51d6dd, 0xfcf9b89e19b1a55f9b03255cf80ccb9fb6aafde2b46207d873fac80ccef085c, 0x254f801f3c89c62436ef63df67d912c1f231bb1f76c6c7b497f7708dbcfdc17b, 0x16d8e85e57819a10a61461bcd8d3d3c963c4f95afba3e4d8fd0d6ec882b9d161, 0x29c9565aa702088bd443e4620d84bb2bfb93253a8f0f04e5cf408c92820ada84, 0x294fb68064643d8beb237bd705a557871b5f1408624eda46d47b583a60d29cf9, 0x2c26f3083140c104baf24c3df922317584aa11770451e6a846de7dc795197313, 0x231811279854707dbaa537cb27241e7021a949a1d9671380a7d6944c838904cb, 0x1419365adbb91f1f7d1bb0aa8a4b5d11c7ad0570cc6cf3638be9c5a2a275b495, 0x1674425f2e9fcaa66eb001feca48ddd4b2a29e86d451f00d176ea35b4e02fb84, 0x291f956def59b878028000cef03d7b54dcc2fe1dd5a75dc180d6d5bed898cd30, 0x2f1302894fe6a26b5bc03fbaa69c4d95012394d78de494549c7057b7ef965bcc, 0x627d6d6d94d0a19a17db45c0796f7db8de13d278a2b24c99ac5d92d0a1a1ce2, 0x2ee297662bafebcb01df8e62bd5f50f03025515b10465d59f3a294f0bfbb2fc5, 0x118029945df773f52fef5429da766b902eeae7d967062fdd879c60a1bfaba75b, 0x306042d262f6268ba789eb4323c2169279752ffec6b8536cc68b53bd4df0e858, 0x472a13ac7da9ebe1132e05f9ef609135c82a0ebd9278def2b34f8ce709aee4a, 0x2e8f76b27b474180f00c5a6c2d65850bbf96019bf0d76dbb4743a970f42a130f, 0x1e33984165f47c204a33fee31f613544b7d846a7d5ea45280ede4b362c32aaa4, 0x17f22e27252bdcf91a72b59eb276a666ce4fea7adfbacb2ea9fdf28524b7b43d, 0x547e7c70ee4e3fb4a4d386c8baa55d823a0f02bc963b43039b8847cff6e6c9, 0x8ea4ccbf815be325ccd15494f38f3f97153ab09c54a87a852b2a99480724e25, 0x277cb45f3e632718673ba05d48c712fe7404df9eff5401cebe45d194c67fa8db, 0x159ec7ea49aadb3a8b0a23c1dba0023807b0d099d3c40b69df866a92dc87b37, 0xc33489297e244956de579c5c112ab40c7fb2d89866a28418f660a86ee18524e, 0x1bb4fcbae28a2f3399568c6b3849da27d6ddf4fe6adabb591151679ed37d21f, 0x2a23343d24a9cfa3b8f413f52ee1b233ce4c1d5b9bf34b03dbc6d733d52305c9, 0x707a6d515b3bad03a9b06d6be048defa850134aacd120f38fa93264016b7786, 0x1837db5401dd6ec30ba6b866184da56e8db439ffd04154ec469b62120ce35cb4, 0x244872a0d2766b8547e6b6a5afeabf198e1409a0f0026de36c101793952f6cfb, 0x204fb17927ce873c761196395f7da46f679ca331832a59fddd2ae31e84eba1f5, 0x56f53037d5d8efc7cf6a6feba18d102bf818bbba70b86dd9b763a12072f4c2e, 0x1df4bc5d73239f5ec3b89efad53df9cd8ad8fca543be01f5f40fea2952071bd6, 0x1ffb6ccbba001155d46e167d1fad1c13bf2892ac87cd9c347c734ab5ef658367, 0x8ee36e881496539b0abd647d353e51b63fef91fc944880006f2c26c2ecf2a24, 0x1c3080c254443332a3e6283d5bab6f7fce8aaa68487b9ee4e372cbc6cc172665, 0x2dc6040500e7329f75a3cefa4db49f9b47085b1660f8873b3e81b7b1af82af53, 0x2c8bca9dd293bb67db1f66ff2e82047ae9385ce67d7f33568cd4c216a89994b7, 0x2a157b9786f9224cf63648aaec1b9f61c7a7087ed6eb8ab20c6c5469d401b7df, 0x1e0fb0cdd8a54591c42e7c26b9027b77417e4e6522b472bfe61ff89c39bc40e9, 0x250144d1cea033fd78bd73ee4ea4cfdcd6a42f7c00e2d7ee6794d464207d2b3d, 0xb6b3fe9a7a525ca60443c4b78a8e830957aae0403116d22983a2e680eedff65, 0x2fdf613e67d176569f4743b4963f8c53e52482fa32e705247eb650bc7bd616e9, 0x48f64b14275fb86fc55b3c0469cd89306752827c3c04463be5bea66fbd7b38c, 0xf2027b781c2c52490e11ed4b7b494d66cdc16e690b6a4b3c924dc9d6e854832, 0x29652785160b261c1c20c741524a26147cc3191f33b74ebf17d44ce2f88b0f91, 0x1176909e02a5b37bfd47810fcbe73af87fea130470aa44bdf6b058c4d359e179, 0x180f26c6ce2a3a477baf0da58d069769c2bf0156d636f2255e1bc35c01e98993, 0x2afeedcc2cec57285ad22e734fb7fe3dd65f62601c1ca4884a86c7a6a05f083d, 0xdd21a87ee22626998dbcd73dd751affb49d47a02e995a41bca26399103087d2, 0x1d21baa09d7f50f0159fa8a0b6e0d61446d1c7db5d1566469da6a85aa7224962, 0x2dc59c4c9e275cd8c2506282cc5bb842c014bea4236b1bc27a856351b48af802, 0x2cf62d08541dff0919ba68a697f44f4791c42d1447a41513ab9d5f755eb1f38a, 0x2f5b8853e2cd2e47a9fedeea4047e46083c97acd4b687aebd2264e7a0eb354b1, 0x5865328a9b2fd469170c391c5ba8db5c66eef9938e4da5bae33f2703c470730, 0x29761c9fc3d2c4cc1b126be1dc0470a97b8f2725d327c6d1ca923c2aa8092b1e, 0x1d3fb1f8dc3c77cb515c37bc810d3a5e3b96552d4bbb57fdb01c2aeeb1d9a048, 0x5f2fbeb7cae0a35ee2f3a4d2964d241a0ceeb47b3f7c4c87bb3b052c8705d90, 0x1f445014a0f266082a50257152609cc219062154f4d7c13288746954b97998f8, 0x2d35917cb1d0ca611ee37cfd9078c924fc84bd1a4bfd7db3ce39e05b38f698b1, 0x5a89a4eb40387b8512f2f398b6526efe76716951c500fc8dabc835775335ced, 0x4e26aa3f02601174f46ced15594329e4f4e5bd5d7d53d5df6c8633a94dd01de, 0x204d587d61526c1e047e1dc6b6d403b9eb8730f2e2dfb7bc7350d939bac5b90f, 0x21c8ca213d2f44446ae90a6bdae5843b7c2cb53ed699f36675ea8280a2a420e5, 0x1303bd921f32fa4c4e73af21457c46b6d69e2e6a2c396716217787b46e822ebf, 0x613823c5b6abeef14387465317e713b45ace79c0e4433d7c4d352097e5c8399, 0xf27c5305ee978f4f775e213e3ba12a901f51144ce1ea89bb5046930f5ec55d1, 0x2cad11c693c6a627531950a307e07b30ea8a495115f5a5388827792120c7bdb0, 0x16bb256883c44cf37366618e46c6db4e3da97a9d4ae7d5c585959de3272f82b1, 0x29afe50bd78f72cc763695976410324bfd67157a5ccdb7ae45b00032e1d57a51, 0x9329902e59e5243a726ae5ca35408a207148609ab3698139725aefe29aeb167, 0x4b1800e600c90ec4776bc6af1764ccbdc10bf55c3314f42acd0531ad53420fd, 0x298d0110bb90e4c35e293c7a7dacedef7ee9342a591b4330e27276aa13b67ad1, 0x24ea6e68cb1aa6b407e022649aa32d1b7ea4a350e510c07eee43929395e4f82, 0x22ae3a1a81c4550f5fa0116e135d2df2bd9f6835a0f0d03f4dd934e1320a3d8d, 0x1f0f5eee9e9abb2a2f4ae04d6fe09311fe0115c1e199c28e22705e681442ed37, 0x23c86606616f317af022464f350b4bee80c2fca32064bcbf83e8cd35dac06c7, 0x2a89c4e5b074fbe67d04cb03efe18c4bf904bec4759b33dad6b2c86ebfd2b9d5, 0x4b0f48c4f2e05bda4b9cf806075f9c275df2cf60b5fd11470eaa7394a82727e, 0xedde5a2c01327ad042a686f443417bd8f107c99eb7c02900c931a7bd8cb349e, 0x2cacacc9c9d8b0004d8932080f9378b60675a8bd853aad1dc50672f137212cc1, 0x816f33508621f2d56371156b0a3f7731030e4b218e44c90a88cecaf07170dec, 0x2ef8e0a455d472b49bffda935c8d3bee1ae9248608e2a52d53f4b76313c97920, 0x17184a8af9199aba605dd1f2dd18ebc02e3055ce408068eccaaf3ea7c0a334af, 0x16395e153937a83660db6f78446cb995836436602777d81f0607130b44881448, 0xe174088223c38e9440fc77307d6720ac32784c9d2f591e2437eaea9b8f5e2bb, 0x19e70fa937788f7a2127573d56c8197bd0dd096140f39064865c65c31b47d402, 0xe434c329d5242adbdab24780495ff97230beb344b918f6f8d6bd7d21b03692e, 0x2c88a82eb87c81ba42a211bf2ef3c15875ac157c7f3868fff35af9f55a8c22bc, 0x111dc223e3c9fc7452a9c2de469383915f33adf4cf5b49fd2e01c51d09ccf436, 0x10647353de3197b9cb48f4539b507e45393b000842e8baa1218af097f871baea, 0xe53d64121c0a851c1b3f07423582034abce698525d0a47724354c07152f703b, 0x2891938acb83ee193754969f4aa5a62a531081dbca4dec226258ea92984b4348, 0x4106f95e4ba3fb74dbe4bc53abc170262ba00c7c63ed8c457c3227532c12ce3, 0x2a73e61b8f1babfbb38b186f401eed0d92c5613ba25dd2ff4d099f7dd3c19fe5, 0x18e16b24642f19193b798b923b8dd25f6e4856d6b21b729aed2281ab154f7c5f, 0xd5f849b166ab9f6fc1a64467c5557029f359a2d0f194030c4dd875e12ae3485, 0xe25250c57365a29c63a4f1531b8b0ef523eaa93c1d70acd0aa7cd7844dd0442, 0xf813d14af0c85bcedfbf480b3d80b9f335853c60188526d80761274074a599a, 0xd2356a92dbaae8c24a8cebed6428083ef2f469460f166a6e774377e78055435, 0x1fb6dceb495bf90fff56c8aad70b40bf773ea1003cdd092fd77a43961e9d7dc7, 0x2c0a70ced79951a75e23c5a323fd706c2ab87c381cfc3c269081627741c2bbe8, 0x13dc6b3bdb05167dceb4b11037064ac5fd22db5e229e4c6ba55e8382321dc5ee, 0x210fa8b777907ec30bb88dbd7c0e6ca9004eb3425d498025da6c90a47c35025c, 0xc5cfa957139b45a72fbbf80a410aab5454a982668baf24b0dd3c04e4d599cd9, 0x1f1f3bc4c21d633400fcf8bdb7be59b7f65cedc06bb2fc93a873b6ef12e0f52b, 0x188f0ee95a9dfb03cd5e3fb30827057e933711644ee7bd57490374c0d67532e1, 0x823877ebf8a842b77e8e0f3b44873e9409727101b186cae2b80d0cfa726ec8c, 0xfe81603de39ccf148ca6390d6f8bdc9395ca2f3f50878283d98f1f0e61b1aff, 0x2ef61fe192f52a9d7cebf41c134098f2ccae35cabcaa12963566768ff1b83706, 0xdb6d076b2dd1b9f4d56d2f66fab4d7bfc6a38fef7f9ae1d4c2f8c44b1510f51, 0x2a194a4ae8583f28189f9c011d107b82f279e6a0f8ca8bc9cb0aa581831c7d06, 0xae539fa9ca67d4af48fb292f9188c9e72f2eeaae2e500b7e7201718c8da8de9, 0x23f66a894b1df4d26a8baa6d05b1ace511faffd4605b36cfd12bb4c6dc2bb4d7, 0x137cef522af2942aee9a4fb8017bf330e64601f466b56d32245669d9fe5ba707, 0x187aafcb87841b2df9d64c1767789a6b221767e4634f0d550063a0bf92788c32, 0x23212e75f4b89992a3647036ee36d74938bb9a9851e13d7b6e52daf66c4cbd25, 0xf54cbe967770dfa9d068b2fc53abc96489bb7d266212654d326de6b9af16d63, 0x23d83a60b9887ab4359b8569ff3a219bb81367955fde72a62002d3cd51101fcc, 0x2ea676fe7f21fc583ab0b0e189020d42cb22f044607ee15bfac7dd66da5ebe76, 0x16f37f357a0c584821a356ab56a16d41f045029cb515f58ede001f05a807890b, 0x139093b78fc9603a4288ae5811ed1311be916e4c97d35a5cf18e4b7e47d13b03, 0xaaba5fcad1c047030c8bf246f41610b68d60bad285cc15f55900f52778a11ba, 0x1611827956f3435c1fc67dd3d37954a255eaa0196cddc5d5a6187fa0a2839efb, 0x23db56362f248912421e5f087ad16e0c9e6d2bb59db30a52818e41964b7d8126, 0x2f215e640207a88b02999c98f1af8fa17331d19ea3de1decfe8f2e478224209c, 0x2b2a261917c0fecf2bce19021f8506e378e9d3e1afb451e9d162b3d93eed8612, 0x2f662e4cdfef5f822cb956df75b17b46f17b08f930f54bab4324a0363e23384b, 0x870eeab2e7bb1e82c426c2ab1d65fda25d426749a538b4ea669eaa31f661a00, 0x169418dffc99f2ef5dc6b1013717c134409349d846457985725b15ac6a152fac, 0x21d3cb240d6400339ad5bc535b4fbb40919ce6b90162e51ec6895a7cabb4375, 0x12e45c46c45b660b6addc149e4216eeb6fb19474c8cce4d78e34c3cc18024afb, 0xc7c86394b7ad61d8c348d185403dc77152fd310b5d05970375a11b5abd03548, 0x3024e78b217f85d8efeb60008ff70d33c3e84c238d9c21a04121b498a2fbb131, 0x235977101b56071ced3163c1ec7187909a3ed7679bb54ad40811ba318e1afc81, 0x14bf885e66f7c01fd974efdc0bc2d628ed79ad6fc6ba511c5a8ec383e1a73a70, 0x223325ae7e73cf093e1d5891aa92ed43f82610f1283f265f56548b38072f38d3, 0x239a5ae138dce6a019f44560ef7c19d2b8025dadf040559226f54870d318a57e, 0x1dcc35115d9057efaf468d7c8a7d46048e01359c974855bc99738f0b247672e, 0x1359a40012c5332587a4deb5604a436e269c282ba240cca0a6d77b343e76bbf3, 0xa9ee39712223d4c0c37c26a96f267c85fc8e31acaee0c07354d3798dc5003e7, 0x11812d1ca3671ae688a9877233eeb5ec29868f7cd7c5e13275391a84167e0231, 0x2435cd699bc94985945d878960770f9298d40c0e28b6b5979069e0590952f0b8, 0x2bf020785e4117a1ea5930cd5355303bf9aab2a1ea0d6685391f40eeab2af0a0, 0x2cef6c78577c9e97a76855292ca92e4269ac53e9b7439dffbac2eda5c6758024, 0x9a30e00c9f0f6f260f05f029cdaa7c7afca506a5ce562c877b3b8d543135429, 0x1fd85928f8c8053c9b264a74f121b90bbf9ae8063e0e89670165b9ba66a3e7cd, 0x24482279d9efa57862a6cd4524aa289e6950606df8cdf8fbcaed4b674fdade91, 0x10260a39cfb0d82ad8182a6951f9c780a455fc1de48c417d6ce6b27f36462185, 0x25207827a76052d489bb2698730d5c3fc97192a4420578d2474a37ae7d7e3148, 0x28e36b634ecbdf7b8e4f9e1a347df95d771f15d97f2d5c401edf6a6e375874bd, 0x73f0dea6f83d443ee3ba27c5b7f0064ab7cc0d34babae859f6bf66d46a1e165, 0x14c6618569f748ff65514437adbcfa97f87b9b0d169048e84c553ba9888c451e, 0xc7675a042ba6cc74fa588a0b26fdc4f2d1f119a0fe6ef111be6a2d45b4bbcad, 0x3dfad7db3f32c6ed8130c43cff604dbe1c29dbff250c684c955f09e495fb34c, 0x20114281fbe35c188164fc6d4144200fc1d9ec433efc677480bd2cdcb35b64e6, 0x29e42f5218b1ea3fad06a48e2292c0fe3df08a2c4a823a3be4b998955da8a21d, 0x13bf4039488d94b1b6a67f256296daeb6c7c80fad2726d6e9be11e17c2352816, 0x1847a4e36b3eace13de58fa4662a9f88c9c17a464e6dbd2083c2938c227ee3fa, 0xa7a2056c7b79384af9fe3c6826830145f51f6f8ca5d1a344e295ca7663ada27, 0x181278caa15bdfb5940cff2bc3216ff06a45962d4979dfc0d6c94993bb7de86d, 0xa8a6f4fbba2ee09a36d390fbb1485fb789cf3f9f641dae011520c8f10e57a43, 0x8f6b4c0d7bd5e4c87fbc6874520e3329c067b6841fc833aa37514435e987cea, 0x2206b2c18f3292e7a9a91039683a55d813dd914b0c7d523210424ff0f2817df7, 0x186cef5c04b3a6c32da26405a16cdd359df57be8e93291acbeba3f487329cfc, 0x75aff67570ea17c7c79c9114c7a10d533c6080b6d15a5bebd1204fdcde772f0, 0x2b06d8389ba9621c3869d2e8b25ac15e2c97389caaf7f97a35700be66c1655a8, 0x4fc6d0a6b67744428161cb5228a94e7c0e95dede804b2b47a18055acd737aeb, 0x25e4a295b4e7a2dc71394d41ec2a8f4b124e58c234448a028a2c3bc6ad25e69b, 0x94c24ab01c6db594fda907b639a7b3a54301439340e889b6ca9cb6cba067b0, 0x2751821a6e3b2206cd6bc3cd5d98cbae8850745ec6cbbea413e7254d2a514549, 0x145aaecc24e3878db9a8d77149b2419ed5b42df025ecbd1a8e97d8b817904bb9, 0xd2aa00cc6e5167d845ee1877b7aa059b5e5151c57e4c163da3403f9a95755f2, 0x24233b69861c70c449ebd36e4420ddfc3c242b69ff6e3d4c6090c2bd08a764c2, 0x2c55fe1a75147c9c826f762f836d5645ac4184ba1927dd56a76dc056a9895667, 0x19779b1cb16a9c79654016674978b8b6ee1a78b64579de93ed2d67b9e49f098e, 0x1807721ba60fbae476ff60120c1f47ec0bce692cfc00102ae50bd9376c5a22a1, 0x1c0208f5aba12750802fbdc3bf12eac9e00ada708f167d4b167bd7d4b03d76f1, 0x90b6e28ff541cc38869abe2f5dbfb9fbe888d21021f29d2bddb9127d3c273be, 0x193d6c7e76ad94eb59a20010a799c7bf96a8dda8c90887d65214c8665ecda01b, 0x9ddd5bc0b1f8d4c4f1a7a102c1ba12ec7e7540cda285a564ea7c4753af8a8d1, 0x300a1dd5fda15d1a9cfe2a287801817168721da2f970139549e16811f555be1f, 0x1520908df2eefba075bb41cfe0740e1e5a1ee181ce492016e152706e493cf470, 0xb3f215d52e85ec3c682698ebcb6228233ae9518f9450f480689e7cf30137846, 0x50996a07af6765c56a8ee2f736650deb4972bfcddb194a0efeb1954daa8a4d7, 0x23a59326daf5f94f3b5192c18ed06cc58cd9608e44138686399dc4f1ee807add, 0x1d220b9add0592866898ce834b1bdc2003976e815c0cf7d3f6b8bf967ad56496, 0x19b49c4da3d9e3a26d36566738658923477c504e76a38a82b1b1247104f681e1, 0x139decc567b06b495bd6f3cf006c05b7e1f25d5b7ac554445c37dd285beaae7a, 0x1a5a7d8bca8d4f07d4cd6e9bcd00c009e3099e99af3080debbb21f90f8e5b425, 0x621e3811d3dcb9584d0a8be41e431d588c93274c8549e625f98fd15983a809e, 0x2a41c2d2bcf14664a0130a021daa6efd4a3b0c3aded38635bff97e3785ed6bd, 0x21cfb54ba72fc06794947cc3bda33d815355416e2aae19084d84471eedca399d, 0x5115093894089a202a4cf8d0aea329d83cbe0ece741160f9975cf01b7c85dc6, 0x2e40541caca7653212827129559ab422a1c06a6f48c974291470c65fc070dfb6, 0x7eeadd730284f5ab60778900b60300d27970001aa63e46ebb7f9cda1157600e, 0xcf33e4964d350adf2051f8e2e8448d3324d24d3f4858407f4fd60d3333bd98d, 0x287c60483e2db313f1a2bda92c1e1c28b65ef0b99df4acfb75709edf6a3bfcb9, 0x289440f4b7fdb8b2b22661d0742e9695139c1a1ecef53c3febde0b5f6d9bb4a5, 0x291bda2c37fac962a24555a7abeb36d8e8b9eb25222f97f4817ef2e5b0bc7208, 0xe105449589412404cda7b82f14d527594ff99d04cea894d6ecc315119f42b73, 0xe6097f0ad418ac7123ae7eba6cd4522b7ffa8dc8cf60a1f836be23e41ec25e5, 0x22fdb676724017afa8a8069c62d307aa4ff52c1445ad41b94c3e406e33e0def1, 0x204d594ad7855ad0f6950742b19e60c2c5338817aab7ee7bf631c3aa92160f1, 0xb6a643dad3f953877110517f7b336518c8fc11d868bc72e76cd76c3b2f7dc1b, 0x4189ea6c2bd4b00fa6349adde17027eb7d76353a10bd07d0942639447cb43d3, 0x23bc8449d898a7524b2dfde263036cac2e14935134f8c3baf7f1e13ea2deec3c, 0x17efa608d9941bc64d39e0b2593b742576dba257fab323d4c99c7a42107a16, 0x2f061475e9d8888b3877f9308e7758a16f91e3a34a5856f15ad0b9f2f92e2b4, 0x1f257d4d6f3277674a061330d73d6ba135da7cb0cba318686872fe1ef6d52e25, 0x195340f6c1f7b5f6158884bd237715149cea488edbfd80fc9b9cc61c384853ab, 0x273e200179c5c45d860b26a20b2c0853c1008f942459d5cdbed633ede031aa1d, 0x24bd0ecea1e1df97af0f296c0e792d676e2c8e02e808a158bdbe01431c5e4a48, 0xc6e6f0f7c20811f404599d458af5c6cb41ab671599d6350df38e82104bc6835, 0x1dee1352470235cd8e129b5611fa953706bc08d58f6a3ef3d80370d8d19683a2, 0x1be0cc30343a168fda7c757ac0c7e5e16afddbfb7265878080725a12fa12ad4c, 0x1a449abf644f68a64c217c6a042a231107ca8d9c619208580eb76bbd9215d984, 0x80117dde58f228a459f59d90e64babe2daf476a9a2ca018faa3c5fecaac1789, 0x24ab9a167b61855e0f2c60bff098d5eb7d15166fab51f2b62c809de318d6d176, 0x2b56aca9d595460503363292bccdc80e823201f71b54bda684c93eb0893784f6, 0x57361ec23c87b30080ff1cdf3467d57c95a12afbfc48ab5e1e4de0162a41b5a, 0x1baed177177a25ecbbfaf4f204d9921eade3689ba1378cd9362cc14145089f95, 0xccdb6d5f4913d7656889c312975fdbe0e0309a841849fd808d75f593a71481, 0x2c52f5e1ef57de5dde528471cc1f0ee7839929df98ee743d9eff962515561910, 0x234a4a32f767f2e1ca48dad3a2fdd3ff54b2ca3d53ce13fc9052414ad7f7555, 0x182b4c0c551ab0ce1990b472278f794ba9cc62abcc90a89efdd80776558e3433, 0x1ab2bbdbd043d2d7d1a4eb76db4de71fddf19edf10d7cdb9550e1846e53fd5, 0x206e6cd1e3154c113a762a628e24940907b41e90e7c2d43aa256ea5249978358, 0x27816cab4bec18577bd335bdaf8298798a261bb175137177d46ba95dd03dc8bb, 0x1680b632a04be3eb1ed64ef589440b3f9526b2ad82cf0b8839d3e7b0f585bc8c, 0x196b2cc0e6e07628df8234f58c027c190c75b0342511efea4c3724c4fedd6e75, 0x29ab0b6065ebbefc684608acc6bf3b5fc693770c38bf91b4be38fe6f72647486, 0x224ce814d39c382da2d65eccd9deb48056ede18c5efcb8e25515b727e540a859, 0x195e1cb28f38a9cb57b2c719b504f5fdd1d42559b6a368264fd0fbfefa66559f, 0xe9e5eb70f4490ba6dbd1c0ee1d6724ccdd58acdf138785ce98ee3848ffb7840, 0x1995c9c8e520014e4412ec653839d781548cf71f46fbeb51919582226cbd5b21, 0x886095cc376c87fa653000283a6eae11008982f27104afee198fc377f26e324, 0x13761e206b3e89b23de2342bfca860f9b0d9a36d486aa115565f9f52369c124d, 0x22a8c6cfc0e38a500a47515c519ad6a72506ec0d508de25942c10f51f0dfab81, 0x18985e9c7ea6f1a16962e4e27cf1aa4aa3086938b13f8ee9465a5ec7bebdee03, 0x215b523ce3f055c92eb148c00027d1ad406a2abd64081043e0d15492845b31a4, 0x102f78c7513b093b885726b7df2e70298801b3e4019cdd42239d76448588c31, 0xbce88602fd3a0f0ab8885891ad44045058f9ace11fdabd24e8dfa1b0a4ae727, 0x745f760f8d466fc21043e2292e6cbb20b6227517f5200251129c5481f52fa4b, 0x406de3807445c6d3cbdf7b174c410a998a1530fcca991535a2a262de4e2ee56, 0x26779e7346349068dbba66f784f87e243cc27cab59e887f7ed7a0117887d1acd, 0x25150652a08af8ca574c7c5c77ffd98b17259a1d914a6ea41db75014267949d8, 0xbb8d13438040f674a79ed42202c5bf6e67de6fc3f6b65ca837ceab795fcc6f, 0xc1ebf40eeaac3d4a192dd50ee25c0067f66eff6229d045d5a801067639ccf2c, 0x1a39731eb32fdb51dd793754f76103b5cab86947aad12d490d4951932ff20727, 0x2baad3d41b18ae10c463af1662ecb28c6988524edded36943672a0e857b960f8, 0x2e778da1518b6a4fad2e833e41466fb2fe82f4f8df1b5c218cdd3b7e49af67e1, 0x156dc717930d6490167743911e9bf4d4634ae049b53adab281698645f8b16dc6, 0x117f2ef1712692ab9dbdc51db4968b45f5e0104f9e5281329349d908b23e231c, 0xb281b5d9dd2ca1a92e2d83b5087b6a08d6ab08330f47512aa047b2f88ba68cc, 0x1c2803766dd9096567a3366061764f8c916f2a2dd640b6eec0942ccb75d40767, 0x120174d53ba57d1a141bf40e4c705683668bd55800000aab6f34766b7b6575a2, 0xc37b25020f8c76ea5536de54c722e47d01795d31b5ed73466e7d8b8ad376d46, 0xa508f345cc9a8b0c30ba27651ba1c3ad8398025a4000a5c2500228c44fa91b8, 0x12afa49ff4d8b4c6c372f7e065840783cb9497eeacc847a340f61f1823cb2a8d, 0x29fc37eb5ec7cd004809516b7aa3c716f4f7f6e7772f443e0730b01dd5071a55, 0x2048fb9c1fdaced0fdc5159490db2977e57dbcbff7514ad1e52a271bf84dd1a8, 0xa6c4223aabe583e899bbcd0314a4743181f1d5e03dbc11c8a4d02550fab64f, 0x15f462ab5b21c31557e25d9c22d8dc6a0cca93c8ed68a35655cff745686764d0, 0x27bc1c9af68edf8e3730197124be559f1472e7e3bba0d35e079b2d1b9e4271ef, 0x1a2ec148f900eeae38c0d3d6efda64e146929c71eb82da3139a3a85968ec6ebc, 0x4ff41cb553ca616d0616545922f2030b71b2354bcd1c55d7eabcaea8904c22e, 0x2f2c4e7b18a845fcd6add67009fc237b14a984619260a7b3d38712e03a0849b7, 0x22925c606a1f091c1d5c7122f8e1a8ffea6a140031106826ac53a9c69d84c0ab, 0x10e2a8c7b12bf70266c257573ca2594d8811633f77822d7c232b329c5b4e7279, 0x1712319595ae464992524bf8e488b783fa45b3548cd3f162d586bce31ec7184c, 0x2e9616987d3333388ea5a1cb56b4c161f279ff19454a64ade43daed4dcda5c0b, 0x2c68210d75660df5d9a8392a2805ea1612fc6137cf5b35a68fc1f03acfbfe4ca, 0x53cf3707283df8730b6e1f637d23c67b0b3533061a35bcb0cb0f9bbe4e8adc2, 0x7577491483d03d7769dacc79607b9897081c0095decdce3d227c059ddeddb66, 0x5639b2324c0b0af81c5b256ca6b2d46b95eaf855fc26cedbf90411312de4a12, 0xec90944eb8fc36c52f3fd13763714f41cea1ff487ea39d70bd94e9b7f8f16d5, 0x1e96cd3ac345bb2e5bd3e755922f84afaf303d6fb227fc68f703b93665f5ea96, 0x408425405c66baa7d49858e6d5871e5b42ffebb0df885a824942da1e2e36d58, 0x284d77566b42f3913d41ebb0528b899426e0805aadb9957a534b022b081aa977, 0xb044e5984887cda337f58c7ca50a78126deb5624f644516239427948d7d06bc, 0x486972179ee3496795bded1c2fc9674c0c3f71b58150c9c525063a6f2b340d8, 0x25b7568316c4b2fef9b72543b6033b317a7bfe406623e47cb68e5c79296e6bee, 0xcec9e74c344198703ceff28a4d11275f6c5c15738aa5a54a19269261ec6a8a8, 0x2bcc34a99345174c97a65e8978194486a9957c9d736f0ca39b98130801d1a114, 0x2ddb2ebc0ac98f6498c0f2be2d73e86a786940a1e8c558d8dbed8d6f44b02551, 0x2642b4a208e503e3480718d4d205351f43da183ed284ed7a385ef7cdca80bea8, 0x23fabdb09b481bc764102ae85ccf1e6ff71c7762f8bad04a2de3f7a025cb5087, 0xae4ed0ea6adb74b9d327fbcd01dbf37f5f6c467480c8aa5f495124cf70b823e, 0x9034e1a646d6674bef041afa774e3634faf8adcc7c71bc2ed6e03b0b4492016, 0x2817ea20b471a4bf138dec79d84f9f6c0015e0ca147b650683df4b3372b55ef2, 0x2dfb7f81425c2def6bfa4e833e51e912298397de78fd2aa17f6d1dd2f1379ca9, 0x137b5bdb746523c051d680be08daa6b0d54c9ff7099f2bf5ce894c24a8ef1f37, 0x3900ec7adc8e28af7046833dbad3fa1024e382aebe02bcb535243ddca21aa85, 0x2b285b6c23b25c52f2079863c759e6a10c33df8f191551ead53ea508511cb555, 0x1242067be2202d1b2c32b79c464e2d6c977e6fd12d8b35281e84c375864613d8, 0x1e8690f5b0a8729b9536ef2920abe7e6f3eee805237b158d997db63b17525eef, 0x47f5113e1287b5572c82edb369fb0f717a91f261ef9d81764a5b279ad9c13ba, 0x2d8800f21cd6774d5a6aa58ae2cd32593593d173b687122a4d61c44743902105, 0x274ba1521d5bc5c580647f10d1a4c4cadeef088685d1976979bad813756f84b0, 0x17895b7c10d6a475310d34a0737efaedddca8f1eee9d8d56e7fe4934c8b56441, 0x6eed11ae9f70df5ced09b1a6db258978cf5becad2f66d15761bf61e7dc13440, 0x3036b521c631ce5d3599e37f6a5daf928842cefcbcd2c6bf84e2db5ded748f09, 0x1f52d6e9ac28976c5a6fbf168c818478645c90d72e367609d7d7805a6367482d, 0x2a0e60356875d6ace1055932b3dd9ef39c3dd871091e96a323c1596cedb35e6b, 0x2089633a6194f3ed38eeec2c8f54d0c7f434938fdebb9c0e1830dbe5311c38f, 0x178c73d2769765d85383283fdb0d769457cfef0612baa963336bac1240b604c2, 0x2fc20bcaba9e3d96ebcdd710e3b341837d5d0db849e789f28c4be5004afa19a0, 0x151a423bee67fb14d5ad279f425213db7e0f21494982df872354c01f0f4a722c, 0x25d61619e135690c4e10e4afeb4f5578ad0f8e25c20735366895b31eebcdf47e, 0x15dd579bbd075429301d7295d3e685d832bf9f36c51277d09f2c3a664b045cd7, 0x236fa29b81678c8a109fd361c1ca90adf4423c13cf5b8cc1032b7283bcc959b1, 0x2a80cbac9b884e20368691bf1567cb7320537a977da10e53c5baea3446c01d1d, 0x11d4cb8957937b3628a3b3f4d27f276cc0c179b0c22b2c13fffbde85fd912378, 0x1289bf8ec507bf752a07c9b71efc0f800a52fbeb1637c5010fa54eadab402946, 0x26f842b1a99394297d25799f2f03dc9e4903e77d2ddc03ec2fb155466da6f303, 0x15944b9954b6182314e878fa2f9e091dcc40eadc48d37d39bdd5f09905c3a369, 0x742166dcd8ebd8576a6bfe0f1fed13793928f84442c7465a0012f584426fadf, 0x8603d5a0e937b5353b56b05768fd50bde792e72fd61c06344cbd735707b68ff, 0xcaa1711c66e9301b6f25e21a31683d80bf58d86032d03bfd25b9777edb74a75, 0x2d6506da695d2087dff87b5f636ee676fab00c32ae45c75b3db345f3fe74a311, 0xd9244b07af9b6eaeff6f84049cb2e01d75dc4cb68533606e976b8b300758c84, 0x243abc3c3382faa5dde3f1c3b432042d3f030ef6a1f5401aa37acd15cb1c8c46, 0x168416e0a6d275d30eda3989242e0723024727d3b0791b06f8e1bfe8efe40198, 0x1bcdeef03693d1ad0ea80c65688654affe634aa14cb11ae3a491681d9c5f8eeb, 0x2f66bfda3d2a1bdedb0ab8bf7eb1c4e551bef58d94fad7f7c231107e5653909, 0x19f6802171ab82a5922f023fdecc097eb8ac1fd0a1ed349afe9a7b94298975a, 0x195a1c738398feed8c760468a0556c232645a1dd862d87c1f508c949ad52c3ae, 0xa36a3a46e6ec16567dfae1f853f360e6f24924810e838cb24ed1b0fce37f1e3, 0x2123c29ea87f7ea7b35c25f9e8dd3e81bbc3974c3c17c607cd840c09f374ae, 0x2a717499cb6c31f71f0f0352b0f5bfef3005b80e93a520b6e42b3985789e2d3, 0xfc053584b0a4607a2293e18baa309c52fdc933e9ba90fd327aaa8c8cfc4daa1, 0x1310d1942129737b32e87a86f4573032b1b99ae3c6d71bafef7b494794855541, 0x1bfadae53fc82900f5761c558fee5e1218e6b2a6657e74b540969eeb49e0b8de, 0x28c08a69e5f3641460ff2c60b7579395650c5b6afb392da142d32de8677556ea, 0x223222ee42b6ca997f44d643ed6a3f2b040f47fe8cd922163d9d9d8b2622d909, 0x64dad4752e708ff29bb0842d2c452a71448b43949345690031cb125588876a0, 0x2d5ddc21797043996b22dcabb9a1ba6c82b71e9a1bc5919db8befd35411056a5, 0x26315fcd9b5e1a266ec8e9f6600f5a6e0bcdb22f926d61591e83fa21069c0e0b, 0x759273a4177fcdeab23da38b478faf2d4f22e82f346aa754b0a1331bc8371ee, 0x9e13300eade70568fa0a840ea9729896ddd84c364d6279d34a0b9d1478fcf2a, 0x13e97ed3c16fad6cb5b7bb954f278f2434b22f8cc054463a145cbe0240d4f8bc, 0x5cd3486dca58f4eb221bc2cbedb8aa3027cde5765971bb1f61c272c5aa51ad0, 0x5ce523f6bc21daf1df468b12fd3e8665e1c1697816a9a671a3b2b6149c7de4, 0x2103066cc5df55e67cd7914028145fb71f089d671c83c5b537abea482b2d8cbb, 0x39f8077bd9b71f91ca0502eaccc1672c539f72329317aaf8173d2edd7636928, 0x2247bc0cc4373705b89672a2205346e6af3a6422e81b4f4885dc3af7cadcc5c5, 0x27bcc768bd31b9d00687a7e53c3ce53c426762706188790ea20b2e819638df80, 0xd91cef51a76f7a62c51c73a2809732d79ac350159814ea536487368cfdfd708, 0x20a9ecdc649a26388dc68dc02343a0f167bad46d6aa1cd008537f627ba140730, 0x23134149a0d4567c6dfc911d5cb80c1a1016220d39e0c230325dae2941f528bb, 0x2a07507e9f030a42c6f29ccf1c9cc4f3e5a5b0dbf05874d5edadc03fe74b9474, 0x1bdf66bb1d57fd788e54ef29f06f35fdb2729b718ce81152cf3aafc64966110b, 0x275c33d07f9e7338ddf50783bf158d51be619bf77a12020cf5630b78e7e0d0b9, 0x16411554e55fe604a1ff1b3b5b7afb6a2bfd0f32c4070b55bf1ad234e8b28116, 0x73e6ac7e6af227557249ca1a5c55222a36c641bc2851a0dfcfb60831f6759a8, 0x10a6fde88c5f621d748543c76a218f95c202bbc3baca06838f31331b0556e12f, 0x29c5865a26588ca8a88128a072c8434cc97a1bcec23e136f038d29dcf96b0eb6, 0x233e0ef6ad132ed211b1911cdd569576fea8c17ca64e4d5dd516fcca07212c1a, 0x96f9b92b9cf2c7d664408a29860365f5b6adc238d878a476bded3e4d2e0b840, 0x2fc788fe8aad4c28b943bb57cb90edf6d7b1f1e835de1fbf3192e395db785554, 0x1bac0ed609233148503795fc5e114076ef7c9d722bc648dd0338d9689f6e023a, 0x1c35268aa030d6cd148e106e3fc23094e561573d8c72a69fc383643e2adc82, 0x2bb1f8fe5d998d0b8b92837ffb27bfe7a39ce39ff94fc167ddcc95a7202e34b2, 0x1a98576450a43e5e705b9af68cd0c145422da23945630b10b8e821dd61f9a2b2, 0x2714d37ee506efbc2ba9941043fb23f16af966f123d653f38388bcbdd50e6037, 0x175d0480ba14abf0bcb8075a03f4a2a01ff7ed75413917b53e50ea00cc2a4ad0, 0x203de45a037b75ef63761750dce08da2be7709701ec8158c17fc026fd084d541, 0x265aabfc78b70ca985c329080d6329a12560f76b01cc3d431a7283022193abf8, 0x135468dfbeb70e8c2edaffac8658a6c22b2ad1520ac0819c127af2ea5f3a87a8, 0x216a41e24329deda65a8a82001c84ce8286c61758447ff1bfa9d9293b6711fdd, 0x2887ed49797bd6652bed8bb99ae345ad70d1a27cdb21b9460bb6fd0d4fe482e6, 0x3e2bf82690c804bb6ee3c79dabd1892ea53a9811e2424a19fae446b8ae49cad, 0xe6dce1bbe6e9e465cbe14dcc615611867414676dd8a8ce9946649b1c4e81116],
    M = [0x2abd9e16b7b48289aa19cdfec726fa3fa15cc1625102ae511bca45f39d337e9d, 0x1b4bc5885d1cfc8eb691875300db5a0c7362ae381898acaf8b63cad04ecb36c6, 0x8a72fbb55dde3e93c5818571a424a54953695029eedbcf91eaeb012751c7f83, 0xf95359a1f6845d4921892f83e500bbb1b3d3763d8fc762400af039b0abb83f5, 0x16f01751ce985328afde34d81619defb43e6c7b5dadf52d0f82472fbce7770d9, 0x1c391626328457fcafa629f3e6d33e2555e8d885e3c07cecc8af1f4d56596417, 0x970f671b9ba35e3e3c642d1e0b8032023ed5bac91c2c1056f03965a42c5297, 0x1fe9feb5c7f7c7a426bff032cd6a3158278b6c6b2cc57a871213fcafd6427989, 0xcc7eabb154aa7955eac47a19f6437a2b8dec0fe9e5686150ff6e88b1a7b4bc4, 0x393efd96399aa0726ef9af79be8b6c715e429906ca0d15076b5a990fea75ace, 0x871233835b752ea030cf8a4f43771296eeb33f697d1b0825db47d39ac9e5955, 0x1a02798f047a51baaea34fcfb26ca6afe96a5fad1d2db4270497b6e6504891cb, 0x55665d76df3cd0fcb713c234ea79d06a31d6e3e4c3bcc657dba4c664d5a0da0, 0x26ee9691a638edc7c91887e302fc55e8e7758286a44845ad88fd7de3bb1052c1, 0xcdb2db9e4f9d732d217c5e3114821165d49e5a2d41556bcd53d0c4d433224c, 0x12f3bb29c972793182123f5c49306e16a3a787c4bcd9c798a131b70856d1cbe, 0xbba9006404c5ede82b527677daf444ed43fd1e0dbdc5528dd2cd1f17ad73481, 0x17e4e73bf701f88d219acf1ca6390cc1e17c9f84b1713820837ca070be84a2dc, 0x234b8a077ef52b53a343b8da5b20cc358ad60760dd60276d485015f73d53d207, 0x2dc3fd77394b7b5ac1cbd1b46e6ded5b835d7217a4c50a487ae9a35a7fd45d9d, 0x1668477640fab14c72b1c16ff0192e48cf882f12276bd12f97f82c6ee2e61e48, 0x9664216ca565c1a44fc2b98347ea8b36904b3877f2159dcc999895adeb4d70b, 0x111fd8dfce2bd3b7ba0cfa93e20fb685abf76d77305857b8df30914e4849ecef, 0x19f53c0a592b3ea93497a511e56f66753598265b1ab6774da48eec04e4d93426, 0x19b683c39d3b002fc3523b7bee5a60148b1dbdf18dd1c318e6a541e8cf66a174, 0x2547113a818779f13e3448719c7ef100b8036bb3e882dd5e6456c35311c1bd5b, 0xcf148f8045cdbe7bb1013f72ebd4126a3e35cba9a970441ba8d5bc76943b0b, 0x3008421eed767a093322a09c3733973a038168cb28cd2e1f709076c00b869599, 0x1463f51d4a4cb1eba16dbc115566aa48fe77b43c244c9988a3c658d2f56493d6, 0x16afd8f4c39038b8006a59d292aea84731c0f83832a61b82250ed90118e8fec2, 0x2296361f3bf154efbab996921936e9b1dff8352711f958638172055333e07579, 0x1c3160ebaeb10f809f69843cf8d5bbaca198d1f8e3439be29beb92d909ec891c, 0x94c66bdcff54382cd9213abe43312edb5b4d414c6e09acca24912a7635404c6, 0x2e883bd408c4c826d004ff777d7c0938434ab5bb84f3420e5d94b853b1746f89, 0x228af6d425e91a783dd18fd89a6b38bda053f2f23c094b875f27cb3abba2030b, 0x214e41788bd2b990347c7f2a8f47612d4dfceb1a1e6da38165873df66ce51f59, 0x3fba82d3f783620873da94e9f4e84c8b529d76f54e4b5d7d4805272af9b9775, 0x66782fe3e869de2cebd7ebbf60fb435785329dfb12ad9bd1b4e46ed36289511, 0x1c5cd6b23ef336be01efa37a27e6b7aae5d1643fceeb212cdff51588835fb537, 0x2f3b4bf0f105f88e27248af094e29feed9ff3fad9a794e15830bd2b311539453, 0x2f4085eaa9f80a69b739fc23f2fe4057f64729b311783fcfab3a0a36fc1ff432, 0x2363603349e94f520fa1f98fe2507f6aae361934078aa59a16214c088185638b, 0x548541724f64e20128260899abe8fbcdff184a1957a9385fb715923bf0fc79d, 0x21c5e25a6991364e59a205e5b01c811deeb095680a72928369cfd2de71b14f98, 0x11c5cc53f6338c825817aff7792a2efbce8fff171300d41455a2edac37663d02, 0x27a0949fdc9f10495c4ee7214aa0edd2ad8eef68f577da8b96f9d87a39504bf9, 0x1c7fc68f3fbde4a23c455ef0d0dbce0ce556a0194e6d552c0455cbb5b0c230e2, 0x11d0f56fc00e7d85b3a2939fd33991dc8abc1ced0c3f3c530cbfb4500d63de9c, 0x1b2e9d20d9b55deb048cabe1636f0e96363bec886679cbd91f332fb2bade44f]).* from "../poseidon"
}
