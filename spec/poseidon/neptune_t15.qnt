// generated by tools/gen_poseidon.py
module neptune_t15 {
  import poseidon(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513, T = 15, RP = 57, IDX = 1,
    C = [0x5f179d678c949c8f9ac7862e820201b669f761eb007500064cd73b50ab95f531, 0x21ac792e30d35b73c7e95830c49e21e76ae93e1f1f5997d3e5bef2c543c805b0, 0x29b8da543ab28b2bf8337fb2ff57359857dd26940fa370d2a6e56da388c018e9, 0x539563cdc867cae628db2b7ecf6c0d99555f7449ed3e1381e1021f16b6833dfd, 0x4db7453d3dc630a42fdde0e23dbc26808d22f42fcb8a6abf14263df95b9eb894, 0x655d62810a5d586b9780ccd780af9136870a986a525478ce831abb90f37c93b1, 0x13f9e730de9ffb72b2261f68388d0011b17970abf3d4040155b22c03d97e31a4, 0x41aedcb899612a11f3c747b564aec9f7e6a83d44b02a79bb349256cc9ea7474b, 0x45a89190e937d688e9e3c7efc5028d4651eaefd6b238b5d42e0d9b6e3f1d1f72, 0x1826b47b437db080cc197d7a823ae4d5ab357c2907adba42b66fb8289b8f0d02, 0x57d167b1ff4f6d85e2f869a955a8eebca9b067076c3a21c5c6de54bc3a45e1a2, 0x27a1c621dc5b89ecab7553006315c5915371a095afa64925c9a0efe067f8bb0, 0x19cd0ddce3e26423d8f4cb409e6145cb2e578260016d7773e7f503783e0cfb84, 0x289a2cd81d8c26580e69ae05586290336b6623327d523bb73f396b3ceea7eb1e, 0x49af23ea886f678ae5dbe52d57abace6aa33998df1316b111f83e2c11ee93199, 0x5d95f0a1b5be337ad5f9995b246b93131e976717acbf70a0994acb0e0a375de0, 0x6496c23d049ae5bd1532212c6dc34f9e489c047e70c8f993f04734f7c4a00195, 0x41d62118586592ff4e1df5e7278cef4e9d8eadb55e4f062a8aafe63dc5fb9cac, 0x38a6247b8c0e847db6b134458ed272c1e0f0ec88bd8ce1482cf33792ce2c2d84, 0x166bebefa9377c2ba394a90ed35a62ecaceeda8c20b3cfe5d5507d4bf792f0f, 0xffe04280bb34aa81a072ed8e8e9cbe9e1ef62d5962f0393ad0d71c73fc0a7e4, 0x8cdfabaf36f5980d55ab224257d55aca60719b2be593f47ec49eb26c4c3a3b0, 0xb06bf20d4c0fdcf2586f65e422f62450f0bdbc878d35b47122a244901bd5353, 0x6d97c5562fdbf3e03e211db2393832e4e0e07d1e90a6ba549f4cf2af27cb7e19, 0x4c869dd7662e4a00084d427714c2e50d4bad59fdfbba84029eac3aefb589d8a9, 0x2082f048867c7c9e7bd0b6506ccf2781e01b9a720bea8edb64d2a3639ab4d7c2, 0x5e9911c8538e39c487bdae711a42fc56e3f69cbd2c2fd8592a1c607554f0a2bc, 0x8b7b309772924ec4a7ce745cf68298688ffa5916b5b97c9577c1f582af6698d, 0xd1158de05d823ad3720bc33793ad2581641648ef754e961d0307e1ed32df359, 0x31a521ba955588c22880940317436c01e175e93a1693700cef13b22eb69bfe38, 0x41dd8e936c6ac17cda0220e27ce06d8dbbbf5dc8349dfa1f31062217058d4b8b, 0x5367da1c59a64411ca3882874ba63fce008d649f59e38b0430088ac6c62cbeee, 0x117ee7eabf3c63c6d39fb8884ba3a843b7ea63003c14921de34a4b526252c1d, 0x6203f0840540d738535a290b84490b170d1ae950ca63f17657ca15df11d2617f, 0x4b9964536594f24b3bd040a50ecf17ab7f1715255b34b1d63721206fbdb46e9a, 0x1750b2a2685e1028595b684887e50da0db8bbc700187aac45a71273033c7c843, 0x3ccb1a9c3abace524c51954ea40bf0813fa5c61181e668c501b91e0ff5f2fb10, 0x6b244cf21a0b1c97c302cd9bf8b5ead3c4427ac6960c4d08358eb45942c87dee, 0xb0b618438cd97df9d506147b9a4d02d82cf03eb61965490ea3b07184fe82d90, 0x876ff02049f3b21ac077bd364214d40e3bf0436d8b0df68eeb7cd48a78447bb, 0x3ffb990eb9b6842f8b76a39f411bdc14585717724c9b936ca45598bdb937d98e, 0x42531a6545fb65afeaf516d14ca5c6d6a97025be9471c81c3df2a7a66e6556cf, 0x2d1d1877ebc07ba2afeabdd47c7c2a4d95751c1ada40ca486b09ae05e14a5ee6, 0x5337e40572f201bc39e2ae4d2a7761c8c9a9246ec2fca3c4db96a4764a63dbbe, 0x5a7c24b653227edc699eb79413d1e2644345b9a2d511eed9d76d5a888c59a634, 0x61451439e9fa7d75577697e16608d7cea050a84fdd51188c427ab400aba59595, 0x26f8c51a7d35ccc7bbb6c13feaf8545a8be22e6fcf42c5d1fe99a7fb2724c177, 0x30ab9ef7a65678155e15fce47f2bf53cd972b1715b16cf203a1b6d60b300d640, 0x15b3dbf0214129cf08453cf2c670820eda44908bf7970107bbca937521a194f9, 0x609ed44fe6cadcc0f64f83966c1f48639b8ae109c6090427c8f78401a744d66c, 0x1dc4a8aafbfeea76a104cd4585362034215587ffad1d9056e30409cf6e77ae3b, 0x26e49a0b09c6cb6c29132517158e71e624d8011eeccba4c6bd22c02d25dbf2ff, 0x221624f7136dd430bb3b44bf83daee264f0fb0cffc0d9c4743356cea43d3be13, 0xc5557c3dec18daa3eb4f74c9c651ee65f514969658325effef595d93a657a49, 0x346f587f16d9bd1b8dbecd183f01134b2e1e0ca245d8ea0b08d6d9bbef8469de, 0x5b49aaf771df7b412503b514d0671f3fd2e11e51bf015fc74d103ef7214048ed, 0x6a1bf5ea658b56f79c7df2b72ff38f011e9d553043a647ab5184cef359ced170, 0x2e16f04eaddd48628c6ee2741731edc763d2f6fc1d85e70597319afc4743d2d7, 0x1c8f795bd6ab992bc2962ba7b049a7c5ebdfcc6b9bff9b25bdef7d03120bce5, 0x770588edf06abbb9b29abb04340a3cbbfdff9a01ceb484eb79b271ad8446268, 0x3ad244fd64f44d0f7f480ed6a7d2cda6edb8dd96529d4c2b041d81c5c40dc28b, 0x1759854b55dbea90a5351cf40c5a9e638587fc811dc8e917fd4eb6bc727b583f, 0x1153ea4708f85bc6e1bc0fb3680530f6d8a2b660ea556944b51aa194ad525b38, 0x4a9f4c47ba9bf3b46ab4e47daac2ed71c232e2f92b62a22bf731c0242184ae5c, 0x1a46ee830807af67cc6a307b283834d561f178c93ff6e1fbadc0db1b694e5cf0, 0x46795063f868e7d236fbaddf09ec8323c634cd33c296f11adbbde0326fd9181b, 0x1a5ca7213d98064bf06206ec54d97a4b46c4ef954db1cb96b448a3940c575af6, 0x695c0e63ab2871c025c01541d52f3c9bd7a63cbfe3c58cc355ac15843653c41, 0x363a54734b12f69688f09e59e56f01313e1a84cecb0aee40a786b0975c912c2e, 0x80f4300e697482db460e588c78446a6a7fe355bbf20b294f079fd905d2aee26, 0x732454f795cfc33b7b633754392990aea4b0e46dcfd7ea6f0a786ea6bb05ef8b, 0x5f4bbf9d6e42a41322dc7372833453083a4cc73e2c514114b643b65062e1bb34, 0x220363991021742d8e35192d6e722684dd6368ce0d5c975fa8448078413ffd62, 0x718d8bad309a93bdbc55e35a9611bd198e211e836fdee971c7486bebfe1031cf, 0x2fd189b48680cb505c4185d3bbc105b0f70c63f55cf171dc89e658afdfe70375, 0x47d6e99adf33614c5923183af2941b7eba72b99b273d43439a3de20f735eee5b, 0x64afce234a805e3626cfba81a21dc0aa6c9871c721505060e1be2d70a96de140, 0x3fcef5b2fbc960fdf00a0c9c1a878e2025ca0c8749fc49092ca21afd5c5e85f5, 0x3eee0d16f2f2c865cf607f0d72a6c6bd764284c0057577892535e409315bd092, 0x257d41ff6963bc66a86b5b573a79307d3e8e79a9fcb92b5b65932b052c2060db, 0x6ebe8c47074a928c8c214c8e564173b715379e7b473d08f79e78e38c317d95d8, 0x2bf09c8ef2cb15b36736468fd98a875a8ca288102b0786270864250cc336a4b1, 0x2ed17278cd9f84a0754c13427dfb8209ae3ae818f4462ce630f3f88ba7b0bf77, 0x2c83ab2a2a27180a4b1996708a62ced63f03f1e478a72b2f576a44873c6c63d1, 0x59ec0220ca1d5394f4cb66381fdc23ccec7f677f603027ce53a9a1127abed1ee, 0x693522f7445d7512f712ed5964ad678a43e2ba9d66b44db320c22c0063e35254, 0x5668f066130fceba4aac7dd358ee9a7b62681d1ca1e5d2268d0ca75cd3e8be24, 0x34997405e40945a0d696d0980a8ebc7cdd82599a0feff0309b073ccbf8354192, 0x65d37fb0415b28b9ad27de6c67f5a2eac2a4269fede735c0d908e756c83ad275, 0x17db485b6009b81713ea1596f60a45500116e0699a3b4b599134d6c9e39ee039, 0x5b633b00c521c8010ec9698c610e85cf78481058201af49490348a291130ac7d, 0x31c207a9f8a7eedd1667c9934cc7042b1c1681c4eff336bcbf5b47b4bb1305b8, 0x72614717841af8e1b8211cd45deffdc6054b629dffdae78b2f29be59fab8f5c3, 0x67caf0276d61b271f6b152702ab40be50e238afd163cc674643850afe40b11a6, 0x99aaebefb31c8bd9a844660914e4bad8a24def508df8c27483e3bcb0af8e8b9, 0x282292c73a53640ea5c85316c52495cf89c67eb7409606b8a9fec0a9cae56589, 0x4a13ba0132407af8bf26669274add5be07b955295deca20faa84384f49bf396e, 0x257232ff99c8ec50a4b3c3cf6cddf96dca77e1714c17c3bb62685211f37543e5, 0x5f5b6e95e10203b30b156b67686b92dbdd884b3fdd49e72183de5fe0781e8053, 0x52ce3e39ccb6ecf462269711bf917c384abf40ceffa2df90fb237f6f18800091, 0x5f6209a072e46e6db355456ce577efbf32f8c461d6fd4127c368765fabeb5418, 0x1c44a1eb60b416bd4d2699d70894bed51770be58b5c3afeee9937897f052695c, 0x362e3e90600c1a736ed57505dc6e83fcbd4e93b4d02c3d55f790f9b6d2e10fd4, 0x40e789de3ed60f3affdb8f3b12d3ce5f1069ee027b82ced138783449ae39a361, 0x6a6aae8f3b05db00988d4362a50bfc1fb2dbb6eb1af077d795dab2a271e7a070, 0x4f8da234cc075c5d26610994e816ce676eaf1c4356916c2b8d8b7a1e8064a79b, 0x43ba4572d801a3dcc1411825dc7db4a4784b68d25786b781778fc9f0c1a55721, 0x39d39b89dd0b02a778117f512e46ac063a102a8a4e5220438e58acc8a3bf21e5, 0x58410c05a809f687e90b0ba6977bbefe7f78e141ce216432a2ce280dabf1b9a5, 0x297a7a732b2e96eede1b0694d9af4b0b97b63bf41869914a44c08967c3f57665, 0x1ea911973995103c62b1c60eceaa5cb42010e01aff0141474d69e68369034d7, 0x3cf4afe7d0d5c4f3e86843080be5df49cc0b4398a659c83d5f5b050fcd3184aa, 0x1d3187fcc48aecf5e01c77eef04cba8866c5616f99ecfde0771cfb69d55564f7, 0x19654b81d02c6ca4fc7d13250b3f1bcfe8d753faf099e00f2b3f19d055338484, 0x6ae4338415496a2e43815049fa63fb859519bffc2e21ac6fcc3a62c2438d3da9, 0x6a594f1440e48c73dac6ac544b0f2bdc95bf8384d3f383a16e31f5a780cdbe80, 0x6a14f1cd5f813badc7c24e39904b12117f5cd9147d1a929bce736f43de561526, 0x4c6def6e4b5cebbaee1b27064fca6c43fe3de6165b1c0bbb1f9bd38dd4ac53d8, 0x455b659767e2cd9ee01aab46c3947e23f25656cbd9c549d842ccb92d9bc318f3, 0x10013cda60467ef3f1b1aa21734dc72862582535d329a9b1806479338c678a37, 0x712adcc38b4b31907435c9baef47fa9a8c74ef20f6bcb86197ea4c64c9c7b4f8, 0x2a7935b0065e86d9f6b563b588aab7650f4e5eefebe9e6b76e67025fbc7fceac, 0x6ae300e59f49233ebb9cdca4c4d337f92319f5dbce77b81e622509bba36dc3d0, 0x33d40eb5ce16792b992c71339a35206108cafa43a2a25d2cadf5a473e60a0fc8, 0x48bd02c2f20a6ed3c929aae7c26cc390df7b0bfed6262374810ec438721e047c, 0x61f58fd9a98e537a42110c0cb4d4b761385efce2498a58580ff1ef79129aa094, 0x51193b206fd7e8503ab782636dff65a5a2b71bae1cc04752f03f691fa85767d3, 0x645bdeafcd3b83d185fc0b87045f5e5996cfe332fc5f2653fb3fc7be284e5604, 0x111abd9d06bfb64ac1dd7e7e46f9510d1e15db5d75b7dcbc2f43bbb601d9f933, 0x340634abed3bdee6f1fbd8a80599dd8641aebd4edaad1fa6ffac79a6f42a32f1, 0x7e130f16b93a2d104610860a62a8175132296dbc45a10924065f2dec0a1469e, 0x6165953d6adb63b02e9e0420be37981c3580939c851f83b3f5f90d4f0956f09, 0x388c6c64e848010989b36f4f145e9afef5efd6a6e0c7e112528178a43c6826d4, 0x2becc918ad3a0187c6e721e8aed7a0f0a9e7c6bc9421c2782e7a6a543c32bb22, 0x2624b947aba3d8c30ea40da348cc5f99ff2f8f4a79e4f7b1e0322d242a9f56d8, 0x195fb85b1d85477c3c97622df4b467e23272b853a3d20e70fb3c90b689a908f2, 0x16cdce946d45c101f0fcc3b33aa677efafe9a913edaced6b711bb7244fffd5a9, 0x3a1a26961df90065580006d95c922918c6c86b0fb3606df4dcd1b04c73b07bca, 0x4fadd77b7a56e435e54e1f1964c6ad440305fd6f20af0998697fde11f0027570, 0x2bf957987f1d8dc69891b4b6d7b639cc7c1dff1d83e62754f228f8403f902595, 0x33d1049a5e6fb92731332930dfe153158cfe85598948aaf9ed76ebd4f43fa05a, 0x545b6132ccb90ab051e6957f2f0b162e3a823202406650fee848197dd8e8c8a7, 0x1e2bf944b514f99a15bf8120bbb999c372b41159ebaa15c3cb92edd0bdf5feac, 0x519df6eb15874601ae13b96f126bf49f65df1e64b60f82ef5ce01405a6daf831, 0x41e27e83c2b24be1961cd2eda2e1816c131635706caa353b992bdc324fc19a42, 0x6a11b73d062c878cf567ac3ea7011230c5782cbfb58bc85200f1158ad420c1c0, 0x8f4f4b543c7ce35ef1ffee1db6e061b621ca3b05bf805b3678ac1efea43616d, 0x6a21f1dde056ea117e4f4715b33970b72dd913b12c0c7aa597eb7c4c61350ad7, 0xbd8eb56d8e7b3df215a4bc09c04910805f5c803ba79da79fdb2d3a9d2871104, 0x14e1448963a83266510a338dd195a7b0f46e081ed64370898aae9faffc16f591, 0x7b272a2d1489cb2f07e48575340032755d6b323730268ed5053bf810c07361b, 0x20f9744c4c44c73e4aebe107d56e1b5af0cf765356c6dd87c1f0380617b0c4e1, 0x2c6c4fce2cd57c3140c1e5ef768c9e39a0d57bec0066c6990cc1349a4b52dffa, 0xcea9f866e88e7d44fb2ada558e114d8910ef9da5d42e41674838e07b9c75278, 0x3b4bfbf8be105895c8bdf8b4c334b5268c979a9d97805280f6196d01fb4af2b7, 0x5ae641701b2a788e8efcb78cc4eab3d434cbbe5bddad4466ea0ebe53bc404da9, 0x52f085bda91011f94d70de7f1561dddaada7be0c0dd2d64a63a49d23008db5d5, 0x64de8d49e9d47ec2257cd0f997e2dfe49da02240b01c639af0680c5840c837d3, 0x2c05606eab7ab6bea021ab7864d6b272c7e485bb8b735ecf0f9bca97d0c3218d, 0x67c46d78a73c9e9b134dd19b8ad93e54a5223cf8bd71462f7d9e442e8c6b84c8, 0x389176af9791cdaf302aef4dea86f46725698abb259e6cd5dc3ee970d04594c2, 0x5f868d57d227e8b97b6c9a31834246aa12f5e43e2d8b664ccca4359a38966bd3, 0x58e632e121bd604155a13a07fb6935fc2495b9b8fa6027434ce33bc809301455, 0x5f6c800ae16b691689037f734efacf66f21f968c9b413471d1f8be2098adf035, 0xe7b139218482f0c90e64867ca7335d148373e375006d3770862d2f81169caac, 0x1c7c18dbfbe41a0b4d23f5945a0a04dd4ce86c3cecc83f1a3bb85500935717df, 0x16f726ab8319478bdae3fc362086061c1f6ae24e5800d883c6114f7a18ebb692, 0x3ade96ea923919be7fc36256882e8bbb5c9293c032b7930a5d9ebba129a29ecb, 0x40c1696013dadf3afbeb5585aeb9242ca3c7e740a3248710ebf7646fd6de2e5a, 0x6de791560af4991d650936581e0821fc55b9b55eef1ecb6ffb64a08609f3897c, 0x1030de5059922711019677db4e1017f0168b31425efa54cb5ddb86a4aefdddd0, 0x6c150923986fcd0f52040c0e22f958888614e6238cd53d9d24bd5fb172abe94c, 0x3b345dfd9117c7ca092afa8c7b62870241714e4eedf6c49c88ef0aafe48f82bd, 0x5dc1afb993deb629744816f8b5109b9ac45ecf95dec3c17bcfd388b570fb0e0c, 0x115aaec2a2c2f9293ad0458be60eda916dea15762ee17ce295c9a29449a8fae2, 0xbf185827759e417e32f776009f9191c07ee9013a01dd199f5d83c54a364d661, 0x3d84fa537bb98e8e7b3c869a15d70a481bad4ec9ab1dfc8977949e2de1fa8217, 0x1b513ee7ec37bd5b353cfc04b132acfc4d81f9fc2586c65fff9ad2e861f4177f, 0x44f315ce49544b38dc226badc4e6142de7eca42f2cda5d42a75c32412b8621fe, 0xb6b2e01d0c21a456745eb43a144901a146e4815d3cda35e0cea31f654881d2e, 0x158ae4997e22c1006cf539797b647a098fa65699b9b6dac4e4ce02ec277d44a9, 0x7262ce3245640d15592a9dcc5b79659c16eaf21d10beb24c3fa0391a04ec9a21, 0xf3be0e67945600be1fc8aab5bdafa1a52c775d292e4fe3bf00347f0ea5e85c9, 0x5e567d5b640e69dcfd22c6948ee7ff9a9974cab5a16fe2e6528873e7e970dbac, 0x111c1dac064752312f69c0c657b950b7b58393df687e0a4ac5eb39ec83cf62e1, 0x136b88d3da59487613e97a16a8b19abe0d8fafc5181b543f18988e40819138a4, 0x3e45ccc26ef90f887ebf2e9b27e8cdfff6393245738ceb040d11a96681e71ee2, 0x5dcb9c2244a6bc3b99fe8b61ba4568c118b413e011186ac201c6ea63011cb982, 0x1a34d3c0dbdda4ff52236fa2b54c4f761b38f5212996db2df0f301b85a0fcd71, 0x1b27a16cfc26d1023c5c3b21a90f6d6ea82e8730d902b1434190c72658a241f4, 0x5e3ecd2ce859de7fcc5419fe7135537f629d788ada5b283667ba71334e14561b, 0x29c0bccb3c2f8836cf281f699e8fe6c5d59fcb841c2e23b7e7fbf6f12b0f4778, 0x62445e9e2c483ec9cb93493496345669d339cabadb52a1a420f6a2c6fe2e68f1, 0x33f04b58b543342dc94ac11ee8d9df547aa44717df3fa824ce95a9e601b22792, 0x57f4e4af242d45ddc4d06893000dd2159246596e028e73c249865940479ac9c, 0x373582dd0bd7b46f4a6ea668e1a592e5892c1195c0dbaf166d3a5dae348a8fa2, 0x1fdc1c49552dd4605c327bdd67e3dceef6081511437c245ce6faa9569fae3baa, 0x20903ca7ef4acc324eb89fb1ab5dee07621eaf9c5cb5a94894783343a0d45fa4, 0x182db3dbe70db3d64ce3e4f0add17cba8fadcd569fb5e871a6e720955f304cf2, 0x805711fd3e44202629ec4177e7d329e8d7e36e05412d2aebd5973f1d421b341, 0x6aa7b93859f00f616cac49621370bc1786d80cdb8ea1aa420275aa9ad47171d5, 0x345684208e4f98b58b8b62b7d4b0a3a411fc222566d3c0d12da32c891b18c187, 0x73d8c9ba3c099c59bf9827fce028f302ca7ee31abc3190ae057618e3613b17ca, 0x555c2423d5156e89b71f1128a084276d3aa13ff583609aff09d820e9583314e2, 0x126b9d78e6295cd7d669bc6865fddbece3fb62c8241d7ca1b0158ac5db0b66a3, 0x20d0cd5e86ce2277c646aa1a5f09b87a3e73728e446ee8e923139802cbe7554e, 0x3f39b6f29f8d2496d22999036f5702f36c67ca2fbd488d8539754757db60345b, 0x189bcd21ce0ad5bb57a2734d873111cb6193132e9b8f39014eb245a671a30aaa, 0x686fcaafd17cf2848eabab3be189fcd80d7f49f3c11c5d8168486d5dd60f2a6c, 0x4368d536a8b9aab88ffcf18966359be9dbfd7a2a1b308004bdefd7a8c05cf97d, 0x388f9ed470d63d0eddee447e9c5f23b33b724268a042b0b7312afd4a26de4158, 0x5c45fa9e18088e99dc0802a6f3707ac7ef38ec4c47da8d1fa6faa600a6cbcb7a, 0x5c9db5bd5f236c38a08d66ced9253c49c42bcfb8c768388ba0f5b345edf62932, 0x49eff4e9c0e12d47df5fa810bc8ef7b49e0717d65a53b08d24d775710a8d9a02, 0x6ad2a07036d02db750847bfca15f01eb47db05022d817595513f6d24c6018af0, 0x1e97c4c494929a9d0418b5e0a739b690e0b8ac7e9a7a02995a84e34b42f70227, 0x2ae24636e5dd566a19b8d456da579bd7d49bb7ddf0abc2fff6a4aac9d970e64a, 0x69a49146ca555b2ee230682488fe187caa92e01873c1ad526310856dedcc4f3e, 0x641765b318219a56a29c3796ab8b00b3b5726e3a9b3757da6a7176cd088fd76b, 0x2666b41853ef669c1f0b34a7b5db0865277ff8392046319cac7e1f02e67978a6, 0x4e993965bce461bd2ed12a6d09e0b044e5f02b42c514036d0a87ca37233f3010, 0x230301c00820ac46ad22cc6a04db1fd75dbe964441adc6e966f104ee4f4f608c, 0x1c3c3e8428b54f3a102c69bed7b4224225f12c60afcc828d3f5081c676a0ad8d, 0x11d803d185b6258378fbc5b0b75f5634a329ce525fd3c8e3ddd67f5e6a8fc09c, 0x353a6e9a7f0ad9e8b7757fb03b811abd05ef7d9f6403ef67ec91ca188efcd2ca, 0x31a1223f058911c26ca056c0cae291be98ef4434b247fb739fdb6802127b27a, 0x4e965b1187ab9145f94291f50891422051c6c708dc6bf84585a337a69e4409cf, 0x526f1c0dcd0e8feb736a726bd656d07aa9df55a3c17d02cc4e500073e2496e38, 0x21ceaca15157d69a39dfac62417946e37819ff2a98159e4ff9e28bee35a5a666, 0x545dbd8bc3115d1bfe603ce06fc936b46c4450fd34f4d9fe670b025e45d65b1d, 0x27a0a9fa00cb387963cf5c4ac6e4084d25f849170924700d7190a3b1533fe750, 0x3ca7b929b438ba9489c361997f5166c50c74e80034e0b7aa49319031cb4b118d, 0x33adcc71cfd7acfaa3cd286dce2581e832ee77b7ddefec910b2282c2f3ec68ac, 0x2243bd5e6352773d525d594b83aba2399d1234fa30dce6db137b99990053fb9b, 0x23a983ee2671af2f9f83c85f2c2f10159838f380febd3892d3593a18328c25c1, 0x3263298b9da9510e504443e638e9ce9d3f2d51c2fd4522056a36615687efaf1c, 0xba337c9170299041be92736d805e88aed582eaf732799894e4e774e64898ccd, 0x5a55f6f05dcea2f5b9f8da5370e55d1541e4421f50525309c70d3c466b33e7b3, 0x442daded132ffc1bac30e6a731acbf08b0fa07a54ee30fe961fc5a296b2d60f7, 0x2507ecf2e1134270fcf53be41cc5a1bb73c1ec11b0030288bba54fec604c3b94, 0x1fcf522e4ca2173e9d202d5ad06d8889886a5a8043c8ca27b1ad5113b930334d, 0x1dd6090814724f943cd1c66aafa82f24fbd04a7a55983f8127796a6d03d71126, 0x58066adeaaa0edb8e2549163c45b706f1247613e619f140ec65b6fbf309a2b14, 0x5b195506b635d3d65333aa5a12fc83312d2927fe81b11f0ec8f861939bfad125, 0x8c64a68083d024c6dbf106f1cc6feeff31148012cdb8bed4dce2f603c0f61a6, 0x22d2833377e33e2f8e1917020f4bea4c39b77a92b111cd1c698bb0d812920f83, 0x4655284568889966954ed22aa78a1b858b841074098bbf238dee90691f630ab7, 0x684aa8c05a9d4b615a14fe24aa3e8fe8382aab88ec400acd7ac73f55ff2d71c5, 0xc4561c866c9ee2204501bc9933943a428f68bb644a059216829a24c5f6eec10, 0x5e2bb64d716c09d0151a13f8d987602fa5a1e0a9d598c04e6d8608ddd6264275, 0x533078be14aa56f846513b0ff86571f1896595005df290c04ca7313dd7291891, 0x6b41b3f4acc02aac454175c30c222b9bde788fa1c7e91a77b3ffb983f8e564f9, 0x8f2b656601e1c42f959b58583075e165e782d15fe17fd179a3122dd171fd8c0, 0x231ce989285653faeac2e5b7d13917523ccb4154b23d0483e8711442cff583c, 0x6b5f346d1c6f8b696179db54cacd53282bc5b393c3263e9b0ffb773cf3535708, 0x55332b585ceae6b9534066c05b9988c896192e268c0c7c9e8f4dfa641095ce4e, 0x3726cc5f64766101d71024320cb6e56f8b32de36867b49b1b626510450e0cd90, 0x31e47aec94cf6ec83923b848aa40075a2146e40edc50d71d501e6764cbfa984, 0x3787b983f4ef64c27ae8bcc6ac0ec20959d18a448ebcd53bc7e664260ce4baa4, 0x4c50af6e3fa2461bee3ecfb73069326cacdced2b09900e5c4eeec1a845b3f52a, 0x61f77ab56cd75422b4985859f74fb8932ce352486fd02012b670d938b78e6f47, 0x71c4aaef1ce8e0b5a5e63a478104c96fd98955467d33b88dcd02ee1a2a4ac338, 0x5a604abd1e65893f658b0fbbac5ebd595adccafff10dbfaa3242aac0d7976224, 0x5303e843a5d0e44097322ce046c460a5b133fac8552efb35b581d8b10ba7f378, 0x3c3db7d6098935c70fc0400c9a63909ded3f9c2aeef6a67c111305e6ead7d42c, 0x114091f1aeb19f9bda033cb8da384a8bb734c0d1dfd762d6e48d1e6867b11421, 0x65c57f27aac2031dc9229d05d025536ba07c57ee712ec591ee5c7e77d7c1d21f, 0x45290715efe7b89e7709ded08e040333485d7384ae365966e90b514ceb14e1e5, 0x34b830128a4cf397ec000f2ddfc521f2cd74086e7ce5c5e23f79fdc7d8ec1b3, 0x21dea06d9603513976bc6bc7e37499f907ed5ef81b895a8d693cf450fc12c508, 0x41fcc85df1f0f52bc0e3f7457817c99ea4afd7dfebec51a93f8b3e7682ec7a6f, 0x47ad90b674be0578eda9523fdd47a5b32390507e4479105f26acef7ec738f1a7, 0x312e2518fdff60b8861d6552f62f24e5ca430d8aed3046dc4435d8b9f2d9da86, 0x10c18ee09a10005945dd264ea8f70d38917cbdbc4e83852cd047ae74a6fcae87, 0x73c16a40d3bf431ec55e19b7ef0777ff07aae623f352188c72a3e7d8f6e6396e, 0x32f8283e8fdd1bf4571e20b5ca0aea5fe94f46ac7f80e9a3c7c2dcb13ae9938e, 0x38af1c0155d97c862d937b93d9224ff6630e187a0859db20c4c145d7f3b941e2, 0x398ccf69f513ad81e46bf068771b422be180dbec07de4553961c2ca720c0cfa, 0x243681b502ee784153914c6a8eb91d9d32c090bf592446e2ed4a9c7f3d56ee7e, 0x184055f3768dbed33baeb228e0066f428f7480e2384063b5ce4005078c3beb13, 0x4f2e9b7856753fb81b0d601dbe3d54a4b05405a0fe22a8d625128754e239aca7, 0x3649be1d15a6073db580d660a325b8f3919b6d7bdbb73cd2bd930c50a67b2ebf, 0xa2d11c630a9b7329d02ba6fd7c7193e9b2c235d34f89d6da3fd252a02f4361c, 0x3ede0a32aeca20fba1b3ac162ad9837bd8fb0b6735e5238a3485c4d12e0c9071, 0x26df0809f4d6354425287e7765ce1c611cabe1c97988fa7879b1bc9640b7153c, 0xd915d4ff13900edc3f7b01f52a5ac3a59e6756e8889f969b8a84f8d9a425d03, 0x4b8b2a9e489d63ae5f2fb4842f80d662687b551153b1713de86c9c1aac850879, 0x1f40ea0c482dc07e97b0e2d8f5fa22cd50f69c7a9b851db4ffbdb6c0eb742aa8, 0x37ec936c6c4961479b97aa46c2a5d76270d22c478a353b3553b27a79e36f3f77, 0x2dc329ee6e8aa3931b28ce8aa034950177500d44fff8222eef839a437f7c6cb1, 0x17541bd61ecb04c35da5a8057bf58a49af5e1b7070fe953e596e57ad25669a7, 0x57fe499116777b9f79831f0968168fc317e753037cb3306bd009e8612f50aea3, 0x14ce48258ab0e7c3b7200e2642603337033f442545b0772f1b7260996f875329, 0x244ed9d4ab619e30f123c1f72c66a114f40d9cdee8caa60fd2d613f3667ea9e0, 0x1c534102a76f92ab55408a5ae2721068df39e319ede3d917d4b7482d85eaa79e, 0x1db81bd827016e73f8c7893e94c3bceac29e8435c00e9c263e11432df7464414, 0x2e2323518100cecf529969d0aa77c3ddc37f0a34fdd5ecf85421c59b2164025f, 0x3d4c7230478e7af9eaf884dc8000dfa96d2160a79e643af65ad607ac67766045, 0x5ad236dd4b2313757b522609862e1d25be56e301321209a3deef44d04a9dda17, 0x75ade832732a715c83417abf4bf129700a057fc8c998ea77a85caef5afa8518, 0x45c1290d29558f6a231bfd9797d986f7115fb3c5c4a8fb80a380c3926c357575, 0x244b2dc3717f051102c1cfaebb0f639e214ff5affef9cf6b1f6bf68a662d710d, 0x46b73082cc95fe778c6816cf13998f2d381735a1edf49648e79bdf639ffe447b, 0x25c42490c110fb9d047a6f573d5e0c559852ff990cfeab9ec7f955528c9b38d0, 0x6d5a39cf981290a184edd2ff6a1f7f2ee6f59f0f4d136e88b51bcbe435737f5d, 0x2e57a3c74e602c23515af382ac9f4404e734aa3733be84bc8f7f82c7c2dee63f, 0x283b2053b4d548375fd91df9d116649bacf23c197aac28b5ea3a39f3b0ec21e4, 0x4ca4958a3c8c7f9eea8cd1f39a9f10491b7602d0fb1b22e28945a2e70b7c6d96, 0x33651a052c582c6b96173303c6213cb593787783c156072ad5608390d87acde2, 0x3c0ddea347d11a75db853c590f737ff62100584e5ff0d318b88e3e7f593cb4ef, 0x3a6d756d737e02c974b7bc6ae75d0b4eb31a9aae90316a85d579d68f13cb47c2, 0x61e85a77f92ae91452b3ff1b4c70e474c46db2978d82d8ec4dccbdcf18d12e6f, 0x63c4d285e0275ef44aff3d3c8da8bfd0b7825ee726b234a7f91a0ad6cf82ec6, 0xd9625f0eda045295b8f7d1ca29c1bbcb5f3e716e28b57f9e46fb329d88b56e8, 0x6fa556bc7b4843703e75811f4ef1ae3d5a5887da2737d997a554ee4e644e63b8, 0x3492d22671413cd915203b026cca46fa63d3611a6a906514642d604a33109ea2, 0x120352a1f29601f7e1da2099e9fbdf0246b8561c7cbf330d3d9138698ed6f50e, 0x7085571cc2798b8c72034734892dbe343f1ce1c4af0eb92d489996b5c1e6a1e0, 0x470003aae9176bcc666437784e03c720d3dbb055a564bded0c51020514c7019b, 0x6666c68a55b41f50d4b108a8b634713d5362d5a97b00f19a3563ce3834b314ea, 0x20546e16fec1410eebcec73cc52dfda366bcbcc987c623c20f4e64f1fe410b52, 0x34da2cd4b95e6c9b56674ec0e59a261f1ae5f71ef385eaaa14949ddc2d804bec, 0x632698559ee764fb5e96365096315d544675bc5848576b25248f1f254b1e6d34, 0x734205ce8e5ec3923a0338efc2e13f8af7bc69d4e692f8c3c4ccb59421c3f34, 0x2db001f8a468794576edeed94c518411fa5d4453207419a47b1adcdf6c352fa7, 0x28d5228f5c4f96e0667f28c1b11094b1d6d90f00c1f5f8e1dfa6ab79c953f2b4, 0x36caf6a94a00a35e3a6db2319c9849e97853d30fc509a4fc9c073266b06443f1, 0x295b2711d1e1be34e1c96c26d2af08ffa6d85f0d58d3ae9c05ac4bcf5958d1f0, 0x2102604d08b11142b084c6864630f9f7fd1fc009af38036ec8085eecc27c72ab, 0x692a80c31a168a5cdb9b3a8fe917b1340f9f7604beb1920af8fe9e189d59326d, 0x2a82a93692d376ab19cd62a85d86c2b2eb44f44acb6116def3b25410712d2a1f, 0x85bd0dd232449a8942dd5212e5935a654fe7bdb4f4b61fb1f45138130cc7342, 0x1e0f008006cc2474d9e7e306e969cd0fd103dcf6eb141af19849cdf6bf858339, 0x4bf6fee0fc1015a2a24e0910b770b6ed577262a11f834c532e1acd651d26f3aa, 0x253269cac9e017cfdedce2f2deb8e3d90498b23c0c512cc0a79fdbc5b0cc886a, 0x6fdeae8e9ae3462ba84351bf85aeb27e89ced87ce8e5ab4a86e243092e8ea777, 0x556161b03e36b6e95ce7c123bbae05780da928edb12f895daab32b585fe2d85b, 0x58b51a249124000d44bf4a7c885cc6cf48c5059bca8e06bdc1072d53f6ac775b, 0x21042c8127690f0132b50633abf3dcee552c7168a761a8877913d0ac51f30f4c, 0x18235b151d6413b18e0b71c79d0aa6d80b7c5b071750c219d637adf51c0471dd, 0x5d4edde745dba253a69c83d2e9587e647ab28783897e5a6593efcc88d28bf7d2, 0x560f03ae8788c58da97d2a48d79b9cc757fe4e94032bf1c48228fc39901cfb75, 0x582511394eedb08fe0e138c776e3017dd106408fc1f332189b0d068eae543ef1, 0x5b1b27b3b05349b9abbc7abebf6d4452c715da37cd1929feedc9a8fb3ba5bd15, 0xd186eb42d1980a5b882fa25c72dc00cb7a194c4d192faaaa6ba05a039263082, 0x3c9c707ad7755de2f887c6bd880349bd16ae65ab02c3288c41664bc0e69ffef7, 0x6c662f34647466fe41d79cd9460c6f18e67da02b9034abe7af211982fb7711c9, 0x6af24fb1b45a95b04b735ef41d8469bd9d726ab9360cd750b7bf0f2b9cc9f4ad, 0x34fa14ccfc43c62a532342a790a806914d56aa3dbf2ef90c7742fe8697943868, 0x21a53eacc1cb85c67530aa0128c6f333508cef1c93bd1be3971510da0b2a417, 0x1d6d8db4d333c037c084fab23926279a9938324172fa83d394ad2fa994181c8f, 0x1ca4b8ce1f5576aabb384ddb8a553a8dcbdd9fa389b0886fc842943a627869dc, 0x468a7583b685d22c25fff6e4c32d730546479c96607f7d80df4ae864f0eb7e38, 0x5d22b1c78f6549310a07a94abdfb895e139d2c5489b3fd8e38604f6d437b449e, 0x22243031291004b30901932ff4593d12c5a657c30246cf8852eacb85c5405bc7, 0x64eb28e2c201f723f3129af21002c277fec08ec067f13ca28af524eb7ae84d8b, 0x573f812ef91737319d784022c30e033446e0b08b93a15bb95cff42ed07142cfe, 0x269ab485def4c702aaec2643c333f63a9f25f1036f489265ab0c6fe117ada8d0, 0x1f34748629465f0544cce83532d3f02cedd6e342452ea7689d5bdf153b5bd0d4, 0x3b354f272a0f63fc97e9f950397d32dca0f542de11bd6866ed5d925a2f3927b7, 0x4b973b270a080813aed6de17d4b55643eaa1a0f4bce1c3dcf9eeb9c3f97eb24e, 0x372d22862be082c0e41289f7c8bb09f2aa616974d9c3d79db9cba7ee5ea885cb, 0xc8da0037318f170ddfedeb62c4fc545288224aedd827928920c785872be3a07, 0x59a4b6c16a258763d1e80b595b853d10656311d04f1a4423e3eceaae76b694b5, 0x1a2c19d48dfd76176f2568e8830eb86490ef219bc2098a652ff282e1c18c130, 0x638cc9a5d78f70dc0d7b97f5b28f4b9c78b725ef191cdf1e52f6b7c137591a16, 0x66104ea1a3a14749712ce9901e501f205d3164613045ea581bce7687c195a054, 0x201ecebd33e32e811fea0c383d1d86446a0b80eab59b0af9fc5039cbc7d009ef, 0x437b110d252daffdad59933b15aa69cb489997cc4d77444e75fbadf8ded71635, 0x113853126699d8fa53d687deb6a1f909a8cb1341ab3d0fd6eaf878ce2bf92156, 0x2b13d46cad6098238234a75f45815229b61f33f3a2eb4e2d3d30a3648660e650, 0x1f0f5429897ed7d94ec70ca5f0b2cd5f4f542c1f116b5ab181695e8b538c003b, 0xf4ce77ac598d0b00abf1269398094fa386efe65c14c421ddea5974004abc373, 0xbcdd986bfb12c2880eb3e4535add7e45fe6ce11e44f2841cae5f6b732a3c607, 0x492e01035b92d9da3a73c342be866cab5cd66bd05f59c7a18c951788330da44, 0x614d71a961664fbe32d29073d525e6771961c703a5561edcea082c1db1c85364, 0x20fa837d1f1de42b6ab6b48879179b6ab5298ef7a2842a642e63d602fb3f404a, 0x4e98a64bb21bddfa90124bbe3f2847193bda57b7cf3ec1e9489d42fafdfedb90, 0x6432100df06c2fd644d91cdbd3abf71e860655bbf4c58f784d1842cca3805c64, 0x404f865bddbe8044ba6c10331124b486174a58b067b254a1ec2fd325f9792a4f, 0x16dc71855f0e515f9306a569ccb1eebb34c4ba0316cf863088643ca7d1e33117, 0x58cd6acceb42127dfefced9b1a9f72e60316ffa07a9290f3e67b97039b8447bb, 0x72301497a9d0789144fb7517d3a22776faac1db56ea0c57f7d1fc4ce32c35463, 0x6abec385955cd3fac1055cd3d8cd224c6eeb687e099cfce04fc791fb1140399d, 0x715975e7a0744e2ee576c1496089a5a5b70ed6e47cdc68fc361d46839bea3483, 0x202429a3820310030ce1d5bc3effd452d8858b2109c002260ffc4ce80ab9247f, 0x176fc8871c20a3f1fd5bd53fb0984321e702b634f569bbcfa4363a8e30ab58e5, 0x196f984efd4e63c1231b3dd783825f298f306ac985b33c55516e278e4ec59322, 0x4e2314ec939f063bd6c80bdb3d8a16af470474136e997ae8d751b590e7b1b27a, 0x649ad768e3cbac636ee17aed664a36cf661f6ebd8fb35a32f0c7e47a45c24b62, 0x66342a6b1d408539bb1fd5818afbbc08637ad0cf70c2df634544da226fa64426, 0x4c49364a3f6317faed13e1635226603250734d1e6f6fef690fde5d170d8f6480, 0x34831ea692be2cc99ff292c6a39573146da27ce3ac27f8bae2a28d7015a2e4cc, 0x1290deeff3c0205e3545c72f75d61e53d8d32eb9520bfad45c9dd5ef25f3b332, 0x6bd5567a2a558e7b3faa496568b3a41f2d458970a1ea5694485fd686525d10b3, 0x284d3372b9587b018e3a0bb86b81e0d48a7136cbbf40e0bedd8c3184104949b3, 0x4541d190728b0d4b41747b0c88abd822524cf71e42ed453bc6355b483e845c28, 0x6fd00934bad4e445a9231d80acf3a78b4c1357a99e57ed8c1d059c501081ac68, 0x48722660b23e8d26781c58d941b9b7d98c618d9f778d7575821af67c7e17a671, 0x37e6b3f4c1fdff876786f79974899d1a65dbbb5963460c39938cf6f682ffad8b, 0x35921d0e1d032d8d690b192a3af07ecb115aae7d84ec397ff5ec2d0c579417d8, 0x186624e0c5b41cad709f3f114ec2ed879c0dbf01dda40075c121196192c0e7f8, 0x487f189c0173c8ad7dcd141957d2c0082c322391dc1af55740299ec62c421f22, 0x2c1150b6c93e5e4729313356d75ec8501599e752cc8d1211d3c5bb6516d49c98, 0x62547a19ae62251782d84ed91162d75e53d723fc0f4df5fd8d13d78520a667fd, 0x47233082e2a01cf16785f0b2ce963c65dcf76b84b47e42c256ef5ea01b8955bf, 0x6cc07712facc72daf8ab681c6efc1b1237aea151991267ee0fcb504bb7a8b2f1, 0x150f06c58888750cce52f3691de01ee48652094c0a0453fcf61f0416e7d3924e, 0x2387be33bd5ce260a01c3550481d8abb33c571fda49376c5e551fa102529ae77, 0x228c591aa4002ea318f9e0e96d52a7c535701a34922305230c454ea7ff2a5b4d, 0x5b159e634e3f0214f4ee0b54f95a922d458642bf400f320decb35c46ed22970f, 0x406b1cad65f4a9279e0a091beb79565437c1cebbe9d823414fda0eb0b3bdf550, 0x84583686ae389568d59fd44512c755e5c285f0bbb2bef1641bb21c26bc2a7ce, 0x4c3874092ee085eade91e92b5d2b14ea73ab0a187f72e1902bd14cc33f210f39, 0x2d2f760f6e3b281b7ef009f113a751a44a29f7f3e127a99032e8a8f61981a612, 0x44c197da71c8e18606d4e60495243602986da11aaa11784e5a4550b87dec6ca3, 0x468fe77874cc32f8649f16a1cd29da05b760ec1f9b6a6fb2d71198293f1c5d76, 0x6638fbf57ae2cbb4949deb35efa5f61d53ff14506ce2b507ddfc9a794f0773aa, 0x3f5fdf1c88f3544452e3a2b57ddd6fdd3f2409c577b6056f6e547358c84ce828, 0x1a7080052e73a12b8a5e1d16edca34642fed27bd5d4a148fd32d5df6819b0e55, 0x30e591674f0f8798a26305c2280384f6f87febfb327b5f5bffe10fbf44c7ccd0, 0x2ec99691e92fe70f846b9d478bc99b4209666560d30072a78700d3e463f78312, 0x2a1c5e7c149e419952128b4613ec4edb7fd1573f99523614095479c4796c68d5, 0x45afc44b5918c762f6bb208b46d5acb274a85dda48bae16f5fd918615a49b9d0, 0x552547db4f39cd18adbda39ae1c81e2374f865927e7752080d2c4f7fa2074266, 0x3528e2e6c45dd266bb85d79c54152a56c3437058236220b8fe33e81a0eaf54c1, 0x5b5fe8968e957d4b4b66de49b5c0aff21586c24a21afe87b8acf1cfe16af9e32, 0x41981580044b81f43211ead0eedd761e73abef6d8246dc4e630ff9a4d5ae280, 0x95dd0b5c048a53fab22f83f43bd4cda5a40c58ce7f3632e8f463d3ad039e812, 0x6cebd7174c332f29b6095b8a9a7e802e5e2d1d1d681320ead00aacb6ac7419b3, 0x163a2a9a14600266db25dc4936bbf63ec2e7375a829f7505e5f384f46f051663, 0xb8fc2021b130e24077ae620f0ceb562b3cc0ad5bd114c590e07d32261bf44c4, 0x4dd82ddd9f0b3b3c6a8e20b6ebe3017657e5030e3115a6efbd5eb548d25e2605, 0x38749285a7a488576128aa9fd9d9b4bdb9772c0ecbcc9d23751530b688395c9f, 0x52ae7996fed3d15ce14f73a88e297f2f40ac6b6db040e5ba60ba8370895d7994, 0x1dbf9ec66f7bcd757397c27556bdd0d20fa4e89177e319ea5b11f4cde7228396, 0x8012a60e0d2897989b2da6cdb1ff387df15fdb0389906cbd1385f367e14cd95, 0x695176ebb315de77d8b745679f84a481f28b078c8f509e3e0c71aa6d0618f17d, 0x172e8ba4ce9de1219d4ece1c19524df31cdc7f1434cd77c95560e63c45b26cc1, 0xbc3537d5a09b18075519f71370aeb2f8d8e7ddd70fc23d57e03ea783b1e55c4, 0x12f8f081973dbbf1d9a5b38856edde3800f1d7bce3b3d1e52fb683616ef4ab94, 0x6877c087e0ebecf67b1d5913b5ad81f55acf194b8e4c4a9c4a692949e881889, 0x179ee3ab495025e7b09092514d101fb8877aab3b58c04cea847210b608e7a335, 0x2bdacd152bb0905d3f03dd8b233196f216c5677e417e34a60bf2422931cae206, 0x422f0109bcaeb95e8f0898cfe60c7d0765226a03d09f5815c7345a9027ddb167, 0x58120f574986f4f9559ac361b71c0789ba64e534c6d33a9e449b74c94685fe6a, 0x3cf9c1c3a2b8bbf919f8bd38bbf8ed76d8d9ed11d054d52fd5f322cd29e1d412, 0x3242fd13b5f8691bacda20a8a99dfcfcbe4ab6b0277d3dd46ee3c6c09242effb, 0x269931caf8eba44a328286f849345204cea1865959b9d4cca99090c7a716a85a, 0x6baeaef11de9665829684108f695dc1c3a9fb2dfde2e79e7719d17f8f8435a2, 0x142c8ffe1a374cb9767b748f103e418677d5206a1b007e2db6fd8555ad2efd65, 0x71831fdfe00bb2a64446e271cf7b22beffa64993f0976f03415059fb160d9f9f, 0x4db484fc6cc6873501a3d01c4cc89b84bc274ed000e4ba3ca1c30b2b64c1985a, 0x46eb88edfe87a146dc39a4c218facd79357bf9e7878b60d1584a8b1d9640581, 0x20204382ae364ed1c740c45f722aee406784c683e7d53f585358cf10be6ebdac, 0x5f71fb924ab17aac7e2ce75de2ef6ff860a416ceb43a00cd6bcae0b88ee38f7c, 0x420b05ee4923e740cab3aba6268929382fee4e8dad987c4ef7cf73b2591d36cd, 0x4f59f8db8df36722527456eeb16f73bb7376618730080b8786cb7e227af73052, 0x23ef07ab6f719fd6f86762a3b6c86804d1899d5aebc6ea832f5fe63b8de2267f, 0x47408342cf28df517669c5a4d8f5a857f7596a462190b5c809c35148be7aa525, 0x178b2f540e25b9af062c963df740eb533683916a295b239dfb95e6366ad81489, 0x56df777c86d39e3dec56997f7a8387dc073b3842319867546d638bd3e9c53a14, 0x25cc324ae2ada34150e0f4a7d9ceb2895185e09df7ad0fbdf004e75ff024db34, 0x51bb59eaf5c703643cac57c4d8f4af6a2f42baf0fc8bc0c80a35d9117bc5c655, 0x1db3717fb46e978836dd75fd3835303959ce7067a4983dbefd5421de225e6331, 0x5b21f40077c552c191b0971535a043a324e7c2b3601db47d0963ab4dd6aff897, 0x2afa646d9610f145005bbbfc7020b9f089acf390fad410f07ad5ad38c21eef78, 0x807d52494fbc2e5b712d1d4e6c93178ebaeafa0415729d6b60095b5fade5504, 0x4b874e7bb3f1961dc4182f3fc18cdc015724ef81535b83b7f0090b3128063484, 0x561995914abf7a142d6ce6fdb59827f46effa14ff55e4507787aaa2df10cff50, 0x3f0f98cddc205f40edc7feeaf472052a9c3767436ed38d7adbef2e050a62e23b, 0x3e6eef01b2a0c8a9ce466f8d6a4ddcc110f819190f6afa0bfcd8e62965199cb9, 0x585f75d09687b26e3c5c7bcf87959eb013c1b3cbb02f86dfb071dd46ffee14f9, 0x3088ab76bab7a5a875ab79a73a66168217f730628099a345f5b67dd86be15142, 0x12ac05a5c276c128c2844f4a0923c38fd47b62ac166ce5cf3752eca018661ce5, 0x61c83937f217eb5c7395f7317efed1b324205e9824dce254b5c6f8322d3d80d3, 0x4a4f56e87c70fdf61b6daf6310532e2beb30331d6ec462716c4a40649a2aecb4, 0x22be963542595a1d9a70e094ae85ac1d86548eee81badefaf5318c909b20a2a2, 0x461e17dd888f13970218be75285991f16eb2dfe7bbb438fb6608e1ae422dad33, 0x584b3a2347cf69a3dcfb9f6cd3c38db841024f5c25666c9fc680da1175d2e484, 0x1196bda1d2569e6b1236377ef31349eb8fd6fced8bd5d3ac43a9e1a5411dc16c, 0x42d822d48bb06ac744d131a40a8fba5b25ed02d4f8c9967f5489cc68a19c449f, 0x32bac7bc776d027f2f26c57c95cf0eac78673f23f80ae50583efd6bfe581ca65, 0x9d514fe084f16b77fb90d5dec13d04f4152218157f3ada9b393da39dcdd3956, 0x6c3ea5abc5e666305e149db6794c9e265c610ade6deb9d80328830ecd8d6b0e1, 0x1a25b2c3a452c1f5380892d007cc2a32f06628970452b4630d87214a4419e6da, 0x5c675bbbfa14668e4c89ba1a86f4e2dda8004b2f459805f17131ed3d78e00d1, 0x158ab0e61c1dbe3917de90d8f0dc20592d8d31345003a03a22da39da5c702195, 0x43a223a109e56971a4cb582c759b20c9a6ba7fd763fbf023fbaf14e80417bc5, 0x241d466934c2f2270803eb08449670fe5eba04c355e987032ed1c23ce862b4a4, 0x201dc1b3ad590edc3a548be8968f9b06b8f64c931b046c84fceab89df6f1dfc9, 0x280658949ec23d7e019a05068effb88bb698933bf73253c6eafb0bab50dfb5a5, 0x406b309e3f73148fee0dbb2f8bef96cb8a7c8cfa2853a524df776ae02517ed6c, 0x160a6e2314032d2343feeabe5db2eeafb16c7a3a1ef5d257b371d3132c396201, 0x3106a166fa5df0069596fef7a58a1872ce0333d3cfaa0e8ee523c0336af0ed56, 0x67723cd96afe1b8a5f08fa753b4d843512bc300e38b6486f1d8a8dea4284b30f, 0xa2e560493fd81ac3267ba4fab746f47f98d92512043a5e85536f09bad913a6, 0xb367c00c8f75593f363e027d8440194a02331c2d9504c371673fd35fab6625d, 0x6c301bf520d2bbbb151530161f1a3724f7127b105a76a1c80f6d2841ceba3b91, 0x5bf2492c7cd1f40fff658f895ab98968fdd01853bbd542aef733d16f485ff1c, 0x468bd52f5a1b101d4fe70ba02041a82e1a68f98f45966483f5b4e13c7dca60d, 0x3a0060fca70d980e2c7a75c8916fffac31791d3de9bba87837c47dc168edf86c, 0x18c1e025c3c16ccd0e35df47070f66998f62b4745693913d398b56a6a4106422, 0x5ba42a0df1d14bd0fd41537ad31082a9fe9581b76577b0f7ba9780380204688a, 0x62e188f1a88f8d327d75b67ea3db5de3cb9be08bf1c3b34c04da18700493e340, 0x6c469b160af3d5ce25a3ea96b777231f5eed131b9527ac37bc7cd1da24618265, 0x4bf5b9714bb4fbc8ec45d6e1ce52a3cc05b8221a75892e8cf7470f3fe383dc2f, 0x4c6a04f362ace1ec8fd94832ffd1be277267d64e59bc1ed53a315f4c7322ff4d, 0x190e56c6ae65bf8adf3a9b242635d6af738517b9e7c6ce0e17fca9b61b30d99c, 0x1243d610ab9315e5f4efc084f58977652460646dba91ce30b2921a50dd138d5c, 0x177b13a23d1045df9e7fd4e613ba9d8dd8aefb2c19744399e8236be5d75ac3ab, 0x413a1b5eb8832dae7db7e70996574622c5a9c9565438443ed5c448fe727030e7, 0x621553810eac469a384df4b75f83dfa7c86adad599f43b027215fe310fef1279, 0x5c086fdf282f98ae615c0562842167c51743bebe0ec68c2d3cd463406f97c792, 0xe964d2c846f65f13057aa1e4876dcbf356ad9431260694f1ae740a8ba3732f5, 0x3bce5689a05245c55adaa2e786aa733be75e9ba4f1d74ddbc593d6e438b6dcca, 0xa3c1ac7632b70bb4315407b3622997c269c38ba10c77df1f2d32bed206510cf, 0x618a133129996ecb3592e76ebe710acdd99010864ef1f51d2fbb3fcd2c7d1c7a, 0x4adeca50e081e4bcd3b393e545de954eb981330271ab5e3bac1cfc1105de7c4, 0x4fd7e650e328b672f842dc8f0c07f2801fb7b99011dc72bb8485dd36e33fd799, 0x5d62cdcbe99f8ec4371c531d0b09ec4011956169851ce4249d14e7fa1ca09ca5, 0x1a5d2ca2ae37c89eab031903fe6b5b3cbd556874a20d5d4533179b140d6005e2, 0x3562068e1319563824dd5d020e414f03121458bf6db4d9db1090b449be509ecd, 0x11960161c8f71bdb916e4b8d7099d380bc1f1b44cc2ea5b2ef94b9e97c02e903, 0x6be2a4f210a0a18d96af122b822d203e6bbd65572e3364c834f2d439124ea462, 0xe22ede2f5a434814eab7a2577d59351bc4e7c8c184af4ed9812bddfb7198bc8, 0x5959cd35368efd27b70a1d65f6aec1167bea2517612ac42f5ee3aeed071bdcae, 0x3136149d474391ce954804ade213da4df983d5587d9dc4bb54daf604c6965ea4, 0x16ff9a6c698813a71019e5f77efe0be9ea72608ddde57c1071121f5c49fb360c, 0x690628f3735af25fb3f33908fb0291a607e3f1d504f1e7b715378bc6ab8fe259, 0x6fd91e6f94cce8edc312522efeecae9ab6b5cf3c0f54867d6e2d747e432ce2ac, 0x14339571e68410405d500b33c705c577482f86ae247a7d59ea5adbcadfd4f27, 0x9b019df1c37154483f3990d0cf7f2334944230b0e4d56f076d63b34136ab82b, 0x6fb5701a31b805423bfcb3ad91e44ddc810cdbc8479d00fb38722289558b2aba, 0x6bf7adf24ff9331aa05181a6c4262e12b1d4ec881cf6a22aa53e45349bb11834, 0x655f0a6ac76ba7452caf9588bd1a59bb781e3845b6c34d6c7e1327cd90c2cb4d, 0x17594bcf1bd3b3d2c6247f9e68ded6f2014e772774cd47e36c63655d6679196e, 0x122933a184faaec2a4e25486ec624dc0a4717bbfbb1811ff934a15c0b3200600, 0xccc8bb7d6cb4c11ac613ccdedc246b3abd49dedd18d6a66969f430e01efbba2, 0x112b7e176887211a58a7489e93968bf36dcbc9ac5abc4c66d830dbc48b0c0d73, 0x3193f49504ca95ad37c757595bde68dc135c3d09cce901bae67c9c290d4bbbb0, 0x5faa8099241f1967cbc4c3669a75c3fc2c7fbc5274258431bbf8363eda397d17, 0x35d861bf2bf8e626e5342ed478b4f5a87c9a24b64bdd29689e6f781f71ed6c2b, 0x1260e3050b7583e2712a8749b6fc7e3922d01c58b1128b0debab6e02b149f1cb, 0x6ebbd2742aa7aa2babbb28c812c4c69ca996bd0d66378a50289033015f3882ad, 0x646b864eedf51bed7825b43e0419177a14cb49f25653659f192f6bc47d6d1e97, 0x1e670f572a6d7bac54ed2eae1016ba94c8ecb0297b2601e55a2eb8f45e7a2e11, 0x6ef223164a3d590f21599c379bd9e082ddee480dabbbea06fff3cf920da211e, 0x66722f6405b86fdad80fbdfae35df460d366db8505369be6b5cfe4e02ff5b7e3, 0x225bb96580d81b2a833c6a78a13427386c31ba2c2cdd1681bf4c7a878740c0e9, 0x2a2d1ce452a5a6435f2928130406396cf69842f4490dfd0de5f1fe35cf1ede1f, 0xfefcdbcb4606ca69a2b5ae4f21f15b584431a1d7226fb16b823bba595a41c13, 0x25a3343f5a50e822af715936ca6be041f174c567db1b53c4cb00c4fe2bb71c0f, 0xf67d4556d0ad3def948c8f72bd71b037b180ce7c71812d6a5feb9dccd063f18, 0x309f48400b8cb19f3fae3c105eba93ec14797f6f19bf892f3c2b918a179163e5, 0x2c24f5a1350922eda512660d75d429fabd0bc26c0c00e4e17b86e533f57f9df, 0xaaf29598359d70bc155c72493f67fcf04d7fbfb7b1ce5144e9cbe83b58facf6, 0x4cd145d7df4775bddcb5d5e60868fb486f2d3b143671194fe6a097fe3d0b3a2e, 0x57f03f75594ace738a22fd03ff2c7a875439bb45f079df3e746f0d7f77f19d2f, 0x409b12f1a06f0e5cee7cb52bc782030bf770164f668c7d9b43b2231e072dff7f, 0x351ee4525be364ddc0d5a817010aa77b03ed58896de120dad857a46415a86ff4, 0x25d6eab1be556b0486d4eb31eb84df0748a934cdb93f146075396f645a3dad9b, 0x5dafded6adb03b9a8d89bf2108f6f76522e8a9108f6ad6f094dfcc11f99e8074, 0x57c9141e0202c407f0b81d794d468974dc57fb14d5d6e6a2f84b053a8fed0d9b, 0x36f6cf1c926100fc5043f4fee4e7118d33e5155bb6a182cc59f017e904626944, 0x277521502d4d6de0740f1bd9eec2bf085151d66268023ef09d1774876810b0d8, 0x46883d5a9113c5de52d7aa30d681a1f447377db21682b2a5479f47b81ca3555, 0x5185a351783f32ddb8040651db52f5c111d4f33486dd049deb9ebb94b2fd7ce2, 0x6590e9bdf0267a45c8500c82d25f734976f60541ab5f8ccf53ed8dfce0ff53e8, 0x1d49b552bf322da02dbe1bde457b7c678c4d393c4352377062df4e12c4445929, 0x22f01e41409684e5615f960722d2973041504dc502f5dbd21425bcdf42b2d9a4, 0x47894cfb67ecab6b117fc9785fb1b183ec30d78761710e4b1a73348853b5a4fd, 0x47b015ba4883a3f1a8c6d3b5fae7f1804b015bed4918558af7712ce62bdaadd3, 0x50720392c25cb9801f6540ddd884456acaf3160c1930a38ba47e65870151ce09, 0x65cd8fb416a94acaac27c7013897deaae25abc3c660141151b7a6b7a0e031bed, 0x482df1e0a0170aaf6079639034a3e791c9f2fb5668f42a5fd33cb293242f8cde, 0x2986e3cfd2cd2c852c3666dc6b166622e258776bf09a49f07d37ef76ee6f917f, 0x135b66312d4d3810b72c6346cc39182c51e44cad58945d732390d71b13042b67, 0x1670b05993377c193cf17b92206b7d28f448529429e7612d07be8e601754d09a, 0x6359bb66aaf60c6f0753a60c9ec7636168ef54510c4cb4a838f1ad3bd6dfdf7d, 0x6d565f98e3b7a97491d8c9b7c738e65d0a535fb29208fb8e98ff537d536eb6b7, 0x6f5cc16a166848607844dbe6d1989ba55d666d628df23b94901c09019a1e22e5, 0x11cb1248ed5f1aaa166e37e21cbf733c3f2cb5ae50c9c8be9c646d645d2bb5ec, 0x356b368d9b2567cd002c891082b8bbe6c8ea1f70280941f26a49508757828ce6, 0x4da67aa49042af16038bec2bf5be0082daf6ad8e6b08b74bf4afe22c5cc117da, 0x2f9494631e2f9e70a8c27e570aff164528b75311291ecdfc96315481a2ddc4b3, 0x44178075ede06726601cf4363f5ee0af51f2f106fccf8f8d623a478079f17573, 0x2133c7b80e6b8d81c7b318d2ac03b674890bcdb7b015860fa44ad361a3bb8724, 0x72c8784d127566a0b808cd01b15b6b80324194e37ed19d729b598af04c981465, 0x6d8988e0cfd3402c03c61539d5ed800f03525b202623d91edca865e5cebd7067, 0x1c11dcbab3b05b6ef464e71d62355b93bcae123dcba993eaca1f931859acea7b, 0x2af27f56a42b550ba0ad8ef8a72c05c1d037cf2bfb59dfab483ad519ff26abc5, 0x5a58915d982494d493524c4ef89dd01760e0fa0eff0b426f1435d1a1bd9868b7, 0x2b5eda42aa31c15c08bbbac65446113cf89fb3a1b3ae0f519f44267113ee40e4, 0x1e731975f738f6d8ebae57fce20e38aa7666034b4a76cc7bcfb9b0519a5d48b3, 0x5ec9daedbe6a94ab13cc8d66ec0eb80a37940a8f36c20d0274bd4a39b951213e, 0x39d78c09d3ef94403c30a9f8dea5af1f94dc583309a0d62290e92ae134e7e67, 0x28366c0da90e050b93d9bb88abdd42e3dd71ac84a930a98bbdb04d5b9595300c, 0x2b18aa304a9d66f57738dee7fd9a00108924308cc2b56c9eaaf8971a6a8c0f8b, 0x15d08d251d6362cb47b7405cc1353e572e60d19e1edf1922c68696a7cdc826c8, 0x1839461a00c7f3ad0f6894bfe8a22c4f6006c84462828574aae4d78393646d47, 0x30fdb71e283f846c7430f80f179bea37bd787109bc6275bb6d718127829c80de, 0x5ef9f1eef8455edebc5933ff90c1e543ce535e1f7a80851657f0f7f1cfd91f0d, 0x1a6b634875fe623ab0305279c80f67a04ad12140c98ee6ce544d881e4eade4cd, 0x321f301ed2c84e39e3ea7df0b88ce0723b0bf4533aacd953556c3bb43dd6b9b0, 0x2ee9a85b99acd084269d19a772c9cd91b316391a048d00553d6f60ea3476bec, 0x1e215b96eb024ca578276b59cdb0fb153bba9ca2f67fba0597308242a9ad3633, 0x61ad2afb5cc53205f90fb25ff31e09465f83c62a137de15a7ce49df949db5293, 0x6ddb83a789cb3de00cf428d5fc8f480c2a7a885bcf84b42ef7da2ba88a0567ac, 0xe8f346b281e7a5c8a4b9087a86440519d5b204482ffa3d94d08a24e5ef504fa, 0xc597be20e3890540afe805a70479749ff19863cde106aac912f31eec63dd3be, 0x2e2047a1ba3e70d3b522690aed687d819a83394667b12c8acaea6d4e60e783a1, 0x4b41b03401b9184893bdf51313e8fd50b996a508db9f7c1b5f90bb9987127f7a, 0x283a6f290c37a61a3798a0e60460538d2b522e388f3cf89a29b023fe2f7998e8, 0x44ec1e41a267908e0214804f5e87318e43ed68bbec13b5ab06c46636d567551a, 0x1afc5ee8716b0aba211534878340403c20ee6e87c194e38d3b3397b5531fbafc, 0x22605a4b9f0ea750fc952be8c76a3ce23ac370ceeccfac0f52b6823d92d157fd, 0x3144d7e4aea1e0918cddc3abf7c71c2c593fda24a306bc0b897e3c8f395b298b, 0xe3bfe5473de1ba7fb18580d6036ab1517a567e39e8aec8168b75ab88293b8eb, 0x5a1961d0be32dd5109c704fddcb0c3a80e4539be6f9302fe052d9609c55bbfeb, 0x3de6241d9ca19b55969bdfb451a4ca679e8d710b42079472ce626b4a42d71038, 0x569deb7f8f33b2045fef004414022ed075d716906667c9942e6d44a5cc9de79b, 0x4c9f260c4dd2467b43ee2d47f949c540cb90d12deaaa4ee5dc7b119d0e5a1a0e, 0x9ef3bbd48bff29cdaeef43f9c3c3da890720a1535be9c3489357dd70130d778, 0x2c808c02a343b7b47550e667d125621cc9f568fc63755826c73f522efe4a5e6c, 0x709925890ee97cd406bd87709176c78a5cf1dab90b63bdc5428fba7773708fa9, 0x677a7891de1da00866a9df87f3aece528e6c1bb9e61cd41b143c147d0a65c062, 0x44a7843a78d3875a6e74d56b98397679f4e0f97079b50ff25d888eda3fdef8d5, 0x387d9d6654fb805529e56efaaa42de2d391bcc743fde56d978822a4861c9b24, 0x304c622b971576f801fca7d7b3e33d6a0f310ba2bc432320b9d744636e84ec44, 0x656cf0e65ae0254c8d300af3f2ece68fc43f62f9e92a2dd43acea65f941296c6, 0x109a8e75d515b63d055dc52a9b968210cbaf351b08e1994d1817b31b602f6008, 0x2ecf77b4c7b92d2086613c411b19513a66ca6301e7cf1112f67044afcd5b3fe, 0x101f0061743198df0d66cd3eda5b9d817fd92f30c359753816f66c4f344c424e, 0x45477169d405a2cd4df4421b5e90cf720d64c58cbb93ffa2b67043134f3a43c4, 0x487f8d52edcefa13c84ec9beaef31c74bff57c48a6dc0540df0c68821a40c7a8, 0x500ec18602318e794c4c35bea5a2034f849877840eabade681e6bd3da04a29f8, 0x4e5a05d8862bcc86c1134a75f0a1598e0ebc251d8b381ece23101ba81c45231f, 0x5d91b5c0acc02dfc14fde9f0e568e855c3cf1e67adc80451f1cb9c139dda7ba3, 0x2d88e22f9988aa9ce902dd0f8aae4041bce9de5ac2847668ec19a5563d432689, 0x540af7bbde2b5d1095b4bef8badd95b24059d8514ab2c6b164a93557fab3a1a9, 0x228dfa3fb703d9f9f5e06176e3cf69359768d42a9305f055ab4890e7eed9cd82, 0x1c070987ee2ac82f241a583eca8a525cea8a38f57913594e563d7cb86ff2dafb, 0x119e2fa3d5052b446e517841158fca86777e318709f4a62c2cefd89da3dfab23, 0x72929afaf8bb0cb7506422d84e1fdcc8cd9fef93bf5ece6853e09e93c0af8f4e, 0x373c7effec66e953ccd37487f32d8d4ee9cb16a1f6ca3ecba35bbad46d712834, 0x252c8f241a36ed4b37136a5774d34e34d8a30f4374c102cb7414f9e92dc7e24b, 0x2f818adf70e81406d05f9e6a125cc7029a56b72b14c3676e9342d5f4ab313b4d, 0x6321ba84c9fa9c4ee887abdb298e53d8e6243cae8200f83afb495cecca0d1925, 0x345edc2e549c673d818803782093ef625f73176554e9a3deb2d52fdab625dd0e, 0x19c0bd9f748456f66c56c0e3f4d93f5f0c2cc9cafe1b5c2dc26d4c177775ddb7, 0x3fefc309da1da9e795858c9f43ff3a51067ddf0b9c9cc55213d32cc1f9e414d9, 0xc18a86ace5afe720dcdac08c273435ca82e5283dbcd89247403799199932a29, 0x3f4f5beebef2c3b4fd0240d18d8562b5a423ecc090daa716106496fb36d1d034, 0x6b40995d179a7d8a1f5739858a258d18b991362e3b4c75c53d0600797e1c6cd9, 0x6ae1fb6839ec5089e1a5871877b98d708e0e1c5bbbc64d5887fdb1e038268f46, 0x4e7cfb70a312d687738c37912e74e96e18b0d77aefa6e601d4920320e96dfaae, 0x1465a482db787154e6b77899673c3d346d9a2d6226e79c28c2e9cf6832554e0e, 0x1539dd5ada7b1923f0a823798f79b4e6500f23367745b94568a920a5e7582de7, 0x55dda4b0bb84b604782edf72539463d4d02fdf6a2b3a5f02932e50b9f20878fd, 0x2ed05e617abcd0111070a028305154c987fec1753006e0f430bcaad6fd7706e8, 0x54664494afaa433d14f09a1ce7886d687b5427cf2afcde67e6cfd981ae5d6df, 0x355e3dae670ecdd98cd827184db307c18472bae65126a29305bf93a9ceb0ec2e, 0x33285905122862e313225bd5febd8c8d25e3347c70407da474760ae6addf4f78, 0x222410cdb49eb71d9501b3390fbd784b12f00acf92741153a9152be9d09caf99, 0x44fd14f33f35e6223153fdef9719d228593c9483957bb5085ffadb650f272703, 0x569dbb9e677597f41677ccb421d935e59744ebe9e4d6c3fa6474246f02131411, 0x415a8f31f35008995e8e1166dc119680d6decdfbbe4f59dc2eaa58079272e5b6, 0x36bc3426da23926215662456b9d44b6316b0fdda4f97a0b9dbc91794fb5c5cad, 0x44d86a5ba1e53a65bd8e8dd2c7eb710a41d8ba4cf713e8c2dfa26bfd6dbba1a0, 0x41ed7c73f9f132415a5cdc9340d273d7be27b5c3c33e9edafdd8245c7533cfcb, 0x15d9b2e5b699be7bab31bad0cfc7eb30f7d16462468280893d6fc4fb317c32e7, 0x724a6e5c00cbe3bc3fe8be7c70a15e6cbd93ed1b4fbca5f2d4b5cf5a6b37aced, 0x2cb97eaa59e6da3fdab14a8bd0cec76e404759cea01a8cdf4288b76920070bc5, 0x2b4672c49eeba1afe6fcb6094ea1620c822f746ab4847411f2f328ac352f8f01, 0x383c1fafd5d7460becae3d476554af4a76dbc58de63d9ae5861bff99d6c36eeb, 0xb6011f70f665c66d121a16c0f14643e8cc8cb0ccbc8eb67fe2d84c940596fdf, 0x324e1e1475b82c8af94635bcff7ccd4319e013bd37d71bd54d9146f77d15d97e, 0x2d31587cc167efc29b7cd63d90edf202f9b33a7bef164675c538956f4bd1a49, 0x417d1e352f732b7e060ece84ac6f2dbcd81e4a8266da87baaf73fe4df8964755, 0x715f738f6bab41d18a34e0ad7f977a8c50721be4c31e438b8e46f925713265b9, 0x5e260f048de710e92f733009118b73c9ddf474853b96cd02477b62bdc11adb4d, 0x33c7f7abac02312ff08afc06ad88f1d7d0ff5cf6c2e35697df583f8571ecb659, 0x532cdada81d4a726eea690f2c987a529dbf7bbde0e4711cb224482fa0e4b8fdf, 0x6a58db0a137c5144f1c20f39714bceaeec18235d213cd921c0c50858c37e42e1, 0x58d27f468b5f98d611eef0f537e156172bf8d545a431fc90e10a52e246728415, 0x2de79009a15d310de85185ff92482dcf90205d31ceaad1156a37ca505c70b5c1, 0x12f8eb5f27ac713d23e334d504fa2138997826d4167fc873a0607478743d1f72, 0x4d06eb9ce93946cac9d71423536473495f174e47e80ece69f3307daaff6476bf, 0x6d896badc9e73ad277411175de2e5479ae757e0ef18752ccc1c610dee6e4453d, 0x4f513b551b852c3361d482247701988b3c881360e861388f3ad6ff6b19877826, 0x6a62b21d5d7e8b40f08b21fe24ac6f4a3dc3d9bd1904020eedc18ae00e8a4d80, 0x4aeb5f5cae7fcb957b78278a2c7b046fdeb08a445389366c34a4a438f7d3a3ab, 0x5e5387ae38597d8ee8a466e4b99ecc2c3da86532e3df9314cc60ce72683c7d65, 0xa6086b6446026dd07e1c2aa747fc2367b08ffdf0f1c70918a310e191e13f7cc, 0x58e7afb0af54f22eef42b30de9006de64ecba59a7b81080c2f451e27ed1ac128, 0x4c6fec2c2c463b52157a2fa4ab136ca41f45ef75fa0227215c29711c120c3fd4, 0x4af6bfd83bf9c413da419ce8bfc22fdad0fa6b8ccced7e887c9b492f843934bb, 0x551e96a3eb6c688b16b61beb9eda5195c43f393887b99523d41e1f7800e3ef61, 0x129db042b9af05f99424cdda164c022a6937f22e23985fb6a3e8e54cd3a2d02a, 0x6f6d03d7273c374ece21ae29421ef54b7f59061ba8f1f8d515d187a94938b472, 0x4db40949ef3865a622caaefd86a22f8adf8fb42c1e873b9b70c1b7725dd519d9, 0x308f4929f752bbf3078fb35c5c5fb6645fc43a840fe0da41931a6fd51cd95b0e, 0x48edc5a44c4602922080918f7f85d37dc560fe8747a6924fa963df126a533858, 0x3e293cdfd86383e6e260bf6d2d1ba69e3036bfea9fcd1d4b8eb02287f765f2, 0x5c83676f5e819970ea9871349c1d62f33ef70012375df593eed944f6ce5c0d81, 0x6a1d3fb369a13a42f3ee1bee9a6b9d2aa39e221db9b33319bc21be3ca6824f5f, 0x22c8eb33b779235ca8e585f5adb2e5c261032018431b3863f15b8fd725e27984, 0x57b142b306674995927e8eb9628130ffb4be4c1748fd3c15e38a6b111c4714f4, 0x6cf645f7a9c134a3d457893f8372244299a1220aac4714e83d03849804588808, 0x30136663f01183ce42ca8a0b8defea750f2395f32e457d3df3e2fb28e40648fc, 0x680f4508ea625ac697278d39a89263f68e133dff3b8575c2e58cd536a0a41cbc, 0x47a57ea6f18b1e0ef186025ff5d39b5c47bbb81e5138f6aaa29d6083454a05a9, 0x188647187c5fba5686b5c4059319405f2662b2ac02cd42eb78a1993f4e793ff3, 0x675f8b9bb7a717c228138771cd2740c8afea64eb8aac103141fd9b7cfdd4a2e, 0x37abd85107427182affb3a1f103c4b0b916d749ce13f6bccf767c9e34ada6761, 0x396da3639470e32b6086fd3e4a4dfdc69d7af6de499562499e844beab4e65c3d, 0x651312faa132d513af91fb0f897a86b8fc1a938dcb01ca66cd26109a256f501c, 0x1354f2f03115e83694a56e9eb1355c59f91a0430264de50a845e30846f6c0d3a, 0xeaf8e6da8c4acc3f79efd175760397dd84cba0a612015b95ef2f79bce13307, 0x814a4bc45e13db430302ae41b5883dd6fb26a7f6c27186f8f3a85492e388451, 0x399f58ef0799b356b4730a62342a7edc20ae75236f25c71795b57bae85c3b244, 0x1533aa26ee755295ff9c225e7031312db920f1bda6d05aade01c79007ef3094, 0x338be3db07fd37506def1a0238898a74929679c59c941bd34e88ec61496f5615, 0x2af43c4a756ebf8bd5f196c42323a07fe8183b7a0b226310422751cf6f8a7af5, 0x4d53b7e78fdeb1b967b97dc8e560badebd2ef86b726719010fd80320c4a6c97e, 0x579b016778284d1c30ea987a9eb71eb933d1ba569d254ee6a4c3427135836f6b, 0x65a41416cd8e5ebba4904d75748da809f6bcf731e2f062bb0747962dfc0b0d3a, 0x722d1b02a72dee66c4b59e346328f28d8fc383c1d20075970cd6e23d5063d128, 0x48d767b9a638461be32fef6b5bd9ea7c2989110ad9fc7798eec1ec15397393a2, 0x6fe70b346fb4caf3532d39f86814e3c289021b2ba1a74d6dcac42a01c761fe0b, 0x2ed9558a7221be6f738357df6a55d644d694408e537b4168c9b0bff6340fa395, 0x49fe8fc3a08225291db964907567330ec48b2d424bf434ba73f706f426d7fa4a, 0xfbd63cf10c091f1d141845bd8bbf9223581d20cdf6432f16916144363d422ff, 0x43c99e505dfcd08710bc6ffeeecbaf10dc817b555043111e0d6a9bed95307ff, 0x6a3b9578094dbf4bac3c1a31d3822af953cc9999b6e757a1dcbd14a54be29f3, 0x73ad5cd7ea882eb09a7903f997dda3658ae5a1cce4d7f072125839a7f873c9ef, 0x2da9d9465bac4557d8b21f4640f45bf2221b92f3563bc3ce28e6d3a4f32f9d37, 0x53aefe3224638e6640d315d8b039b7feb15b19806f9e24c9b764a04a4681c141, 0x4d4643716f6aa5f8954f828717a3e1d08500a445222b8dacb942d3c8f532062d, 0x5f89588ca5290d56dd2245b3bdc88e3a2e0e51880a103d3943c0e9b7a728c621, 0x3921fbb961a14aa69cc2e81cf7a77222d101a5b3c27f217f1d70895e593b970a, 0x2c1da03accf223e821aff6565eb58bc7641b822f98dd95132b38163185098f3b, 0x483ea9e299f5dcb7b880fe94f8312343cc2781f736259b51f45f7e29c280359, 0x565237641b42711a7fcf218e5b64fa8cca812d2592df70bd8bf1e5dd929f3412, 0x6591991bd85e69edd8538f5ea60e95cb2c33590c05507c6e3505b34d95231667, 0x28f831d4f31607b35d7fb489e35b9c6d4b4f54527ac82e99c59a27b8e485e2a2, 0x615899114362279683eea19861f65d92733e566f5b0510c6051ebb9aadc903dc, 0x5cbf689a198b897a9c74b78a819850513937ed3a7610b0bc8d24ce0ae0759957, 0x27f672e5e50a6789507f5c8c6700b4d7c4716298b98210d38b2c7923dde6225b, 0x4ebdb0b77a900cee7729fe2cb199655ec86db6ee7b6c959a458507989145c6dd, 0x59b937345a12bc7a03d4071574e973aa8c4bcdd613a05efc742d65faf5329d6f, 0x498b2316eefdd8a96e3d64ad7295229ce474112d65efcf56a41788ed1d3631eb, 0xb76d2b3a47cadaff000000bf10f25c459b5ce6f045d1ad9f144d76957f4e406, 0x525fa84fb9e8150723a1b870e19f006c82d4f200b12d44850c974eaed1affd07, 0xd1ec88eb9ad3db1209f7778898636162a82872717aeff88d95a0e3939249936, 0x16bcd0f4014187b0dae4dcee6a2cf89d48691099a6b2683b18b2ee3419fcff8f, 0x59a57c8b59f635f664655363fcfdaeef4cdf8b5eccf86b615dac949adda99fb1, 0x528f6425b6a975cd617a60383d1664342ec87c7d2bec7583a70b739f7adc31c1, 0x150fdd8d367bca6d2af69cd5613e361688bbb43aa4f43b8318a7ecbf161858cf, 0x6eb77c0f73ae048b7e2d200b25d216d7cdf8b7e3015efd0e0bcd97499ddf9757, 0x57b81557e668c86ba29a18f2862b73c2ccb7e1593b9615fb71b15a373de2cc9e, 0x74115a1ea4125b5f16b9ddb7a97768b7f6167f5302130ec9710f99008d5b047, 0x521b455c67b94ce79562cbe467b245defae045cdb9dac4859d1e4a45e44c46bd, 0x2486d03f92aaa7c01b7fbcfdce18dfeaa8d2897d13013817d5053126ea720004, 0x35fb8063fb4b1a2ad128567bfb5e7f49f5ccfec790fcd24a015eb747c96a6d1c, 0x4e0e91921120109a0669b20f040e30d7a3c74ef985c429d3d70273288e09aacb, 0x3dc64f0af77dee773e68403461ee36db4d0d461c8e84bc9d9f43f0cf9cb4def7, 0x72c6aec1ca933e57f3b4cce2710c0c7184138952e63db29635e0a6682db78e5e, 0x3080be93c38861577556430c852231f316cfd39fc36efb75630fa5e32849f744, 0x42f8a7beacacd9fce838aa90bdbc3a021e25ee4dfe9534522a083375afe53e58, 0x6f9a3c6a079fd7749663cc74da5a1e61eb966d6930b9937e823fa18fb9885452, 0x3d82e1cfd5cbc999460e3b18dbcbf230fe10ce5f04dc9367e2abb7f8cc5c0ef, 0xf220c61ab5bad9085cd514da71814dcc1cfe384782e4febcf8324b49f591d1b, 0x1b765202550f0c5cd72e4bf0eabb5a4d3552c085eaabe98738ee59000f5c716, 0x3d84bfec0e18812f4d6a0d204b9da9bbad552e2fd2c19e94bddf7746cab76a13, 0x5c2875170a1162a92233c9872a78baced20bf969d7c773cedb690ffbe9831cd0, 0x4608c7e96b20eb8be57293c21c4be55d9539d2653176b99ec25a82d3e5cbbe20, 0x505cf7d4a019f2d8358d3af6eab55afad22e3bc94b34bf8e69bb93e32973618d, 0x16b63ba70d20d83fe775add1c77fb56b801d87ed2d99c24a7d9d13e5ccecb4, 0x4f2dac1236727937fa6fb10935db7817a98340a843aecb5060acfb93472fb7f2, 0x5ea0bc0ffd7237fbf873fa694ead332feed4d485cd53823681f01e486be059a8, 0x6006396ddc6389264ca8abb2528b12d4e77899b6cb4bc28ecbaa6a83d436f628, 0x36f7077db4b0d3bdf76380fab2ff273320245e3dd4ae9e6a683b8c4bcd046e81, 0x810a838eb659474ce69c410a2a9d3b40de7120a288467e24e5668026af696de, 0x80c62a27670824d4b1e15776ff6606212800b3c82a39ee389dc878b3c29dd2, 0x6c70dd2c013e4213bc4419388604ba1e22d91004f4f403980aa2ffc6c23ac861, 0x4c610473cb7031a6c66a6dedb33de26a8444938c8c013774116b07f8874f5008, 0x1c5d92c6438f43bc5f7136394e2e9488d092e72323e6a7d210c79d4ec79f8d51, 0xf17f2e008c5b52322dba8e2903aae8538f72165fdd69c18facbfc7ab2cdc94d, 0x55f97e654f9ced57ef2c778a8b7f0e38b088b192633d270d29f225970134c66d, 0x48b280a32610434735c253f09b03af998c2055ad01da2fb548a41a788a611031, 0x256b3b3d3459aa11b4dc64a97c906fc9994b0c5478ccf8ecd453592ba505636c, 0x1fca1a3a99087747d48a827e22c6917710da4813d84632c12f464f3366a5242c, 0xd7c5adf82dc6dc02796d57079f67d4b59edde095c8b71f190966fc7da24ffa1, 0x69208ac1c54fa7d4f8a99f6aa76603d53f10686be904559c449ed83041dd8cf0, 0x5c253fc2e4054bc94f96732d55956637a62e21a5c46de30e71bca1c935be6820, 0x4c242c3f3e7418f232a35e6548ff00179beb9945eb946fb6769e22fd0a97f47d, 0x4058b963034d67849fc9341456b54f1554f3cf7e81cd944a11a759ed28427234, 0x479ccdc1884a22c9ba2b9caf911d817904ce30106e729b091f62e2db205f1049, 0x5fef7801379f5a46de5edf86fddd1f20448fe0064d2cad21032c03c0c3b38f01, 0x19f96e83381b94fb78d5dcc8c2bb3d8128cc185e36cf3e085fbaac5b0abe9f6e, 0x2a245f4eebe10c0d015c50ccb957778eec5a1e72d1d857af4e3907c7fdde23fd, 0x3cac182d0eb6f6a0d0d1206e31a93a6aabb63293046497c9da768100f2a22d70, 0x72b6d28ab261436b84e4ae2b667995a98027883a55f98186ebe90b0d23a58a62, 0x2f5d0b59f088bc5e72ad465673de3bf8de20d7b8f3d0f959c8be5ba79299632f, 0x29c5e91551808bb7df33c7054b73e221c928a6bfde5410229cf23a50708c6065, 0x4ab551cc82451be42b9477698b74a5f448a572014b6a0dc3dd78b98ad7b44f7f, 0x6cab3288660ca426e20c5bebe27ed9f9c1bb4c158b0639fba8fbbfd97b1f6e41, 0x4b00d8896a2e4ccde5a35d46d71c0a97b0791ab2dc6fd2c5466c547d5cb62278, 0x72b341e0f73543a7f3cdb89b2d67567e5c509b068abfacc66aa5cfa8cd96e028, 0x555c8d28e7d2a1efebc2d23d240f7490b176fcb655a6d5daa5e73b28b08efaa0, 0xe63334be26cb96aec0901c6291264602ef45cb48c26062250ec5117cdd212bf, 0x2f9895680718623bfeb7818a64639059b4f8d09f3a16b2f767712acb5d511a60, 0x639303ce7165fd48c5970898788c18926f94edb7a983ce151183e5a6cfcf7057, 0x5c4b86f72cdd279e0c0d5c248a0f74b08dce5dcb88248eb40210f057822a87f2, 0x22deaee74c8271ff92cac2ba9a7d172f85242946bf50a28d4e9e261af6d2466f, 0x5ae8ea38b369b8c2db3199c604dde87784a2dcc591a24ba9ad12758e4aae5a7e, 0x68e3548b7a420f23905b4ef0b18abb1cdf9cd6022c308078fc054dbd51d726d7, 0x41dc175bbee4e54e50c801b986a87b9e9c067f4f781e64bde5b2837df4941fab, 0x2d2ac7a1fc0b457e09bf951ef6ae1162c168e50dfed2431726aa15c14dd65624, 0x367292b7829f6cc991d743ec5862c355cc3167bddce81a7ad45aacf74458d7e0, 0x1e6d5fa0f91548e2f0b147877a4d8c2d16ad436135cfab8ef7ca7c25dc83c207, 0x37472f0982b71280a7a61313b82a0ed4130d38592337708c023655fadf04dfe3, 0x4c1d8d52240d28c97ad4c93e3fbc3c8e95185b883b27845b1414cfed982dc378, 0x35363f46a50aceac19c3b8130cb1e49332e0272072c60d4bc2a51a44dde52212, 0xf62d5b48608a65ed3c4fbd3469b32945b2fd792e12466c1213ec79cceb3cd5a, 0x449ed237f56c61f45aa9e0674c414f23f26db97a0184dd21bb87a588f41bcc4c, 0x4eca4dfc4ef1170864db33b6b07dc84c10cac55f948d8a7faa17178e7e6a9d11, 0x29b2165ba681ddd5a1811ab93c19036dcf42203c310ab1cdb26fe55c7879d3e3, 0x72926a13ee4e0c94964feb423454caa3482fe032be00be545eddbe767a11d9b6, 0x3c7ae30a6232c6ca796fdb532d7d7a83c9e7f7900bc3f38473b38779f1d5c775, 0x19a013620549d8082d7a6d4903f550d4a6b7334f1f57bb015ff4cb2326ee1b83, 0x476af6670613e1d63917a4463a3814486471b1726b51835f835988a1d4f38ed3, 0x1e780ed2932ac1d51cb875b56cd513750290fda696cce6e7dbd674b68e63edfe, 0x102af835faf462fe4f252c056eb0464a2c81cf5fc10a62ac808b22af48af33f3, 0x5d3c4d67593f79a51bc7f93cc727e0969ed714783ce91fd01a0f8a5d79d5b03a, 0x6b4c4e212af3d4f2df4da4becc6a157ef8ceb2d2a968e4e56cdb7ff3974e12e2, 0x32cccad888876ca2e92db9112d3490175b42429be230b381369416f5a2ccb6aa, 0x39c1c53f390348a52e1540ee6753467a852bbef0c736d82e2ab50e1565994750, 0x62041c1f1858d71343b8b402943f85e66b92627fae1cbf5ad21a906f2387ed3f, 0x6aa71e5bcd18b06818a9ec81283a1c9879f8d2243ec444e94548504ba956edeb, 0xa9e41dd2144bfa9f8c9a70e475e6cb41e91eb05bef5233ddc99a6b0bdac4364, 0x5bdf94c5b54f5c4d702cdee70e71949e9a4f55244a437926eed6bcafe5ec64d6, 0x3de759ba0025315e776ef1afa7d056893afee47d7f1a54483b05fd8e9358dfb4, 0x4fe450d57484030ef1a2adc7fdba9684f0d3cc1dea243e8abe225096152c27e0, 0x40678c99aa3ef3195581c3f71d872ec4bdb2ad3af78faabb0051d9dfb96f51d9, 0xa0b093c147cea2526383b9641d7b9e4d843d586ecc6d5e5e4494ead68e16672, 0x50263b993054ade562e6b46f57d41d4d80194427e2c15b5f31caf19309af4c9, 0x309e54a69f8154dff7ed02feb2ed979f6412ae0f3f061ceb3ede5332a019462f, 0x47490d9a083c8b14d037407b163372362a27185eea64354fffa3bf6b8f44b582, 0x11e81b02f4a7aa5531d97e3e719e49b5021cfb4f610bcedf95d940ced6991c9d, 0x324eccd844dc1e075fe17c5713b4487ba2f6c974d1fc5854ea41acbe2293e7, 0x19a2ce107306e982dbc52d961abe387d688d50b3c70bfea116dd7054c649c7f3, 0xc15848132a6a0ba4522f8b63944537f3414650eb3bcee23761eb63636687b7a, 0x28f9dd60d44efa3b6edf375756d57a4d46b975426af1f363872e51b4e8cf1ff3, 0x643e87c64a8fc2aafd0b8533634597068ca07bf0b516d55002835386e625696e, 0x579280c685795b357c7c7290e4bf25325ac09ab9ed31902f590908ac7b801c58, 0x12344a3b56c632cfc61698606a646a0e4d0718420c59904a66c2bb9bd566e07d, 0x4fa93038829f6fab0f428d2ad50a069e0279b3d547d3fb53f7743dc27667b82, 0x3c4d8d7438e4770e4b5e9541eac33c36138fe42dbb62a425fecd40f3576341d, 0x6f1538f21f550936faff04252a414603aa6ea2edc148bdd376647419a3eb4aa4, 0x683cc9ec15e62ddeecdc6a57fcc922105a0e4a264298c3c75e81c43362eb5a01, 0x26c1d0f28815066f6a8d701b38ac7c941b33798d4d4c3b3ca237edc50ff30862, 0x5dc2742e9a0b2fc2b0a2130c1193916ab2a28981a9d18951a68a18956b47b0bd, 0x36007b966e705c1131f6781da7c04a3ba3de83b7093cc7d0e1a625825834be61, 0x6a8a9e6d82a89c0fb764841a12de8634038d2c85b58d516eb90c9d4e04cdec2a, 0x4e3e88303b683c7658f5b355842ba1c8565d88a3732f2dcf8917a658f369b8a6, 0x826d2c71672239054b8a34d8a06eb50d18cb8138940d2c77a0ddad1838f2124, 0x402110aa46753e3772a7e18e5393459a810bcae1248253fc848d05578bd25bd3, 0x1eb142ded19e19c87dc5f9dfafeeb6952290fd3fa25e78bd98d2b37e49e7cec0, 0x5898a00deda5dc6179d5f27dc6a44e4519b31bd5925eab5f81f3ec6f0cd67c39, 0x28c41ae4c75b8d9caf3032a8053b5dfc9640d9f400adaf936a459998ea7d5aa8, 0x57aed822018c6b2d046ab5f9a9c0ca2899795f3f167a4603ad18de2abf58f61, 0x2bce029c3429837d361ae4d31f022d4a4f07797e9bc5c6a008907d1dfe5e4ec0, 0x25084a6c60e1ca491047bf33ca4899c3ce5cf77b85bda1d5f09ffebc7669e5ca, 0x79a53742e237653b533cd7fd46036ffe3771eb274db854e4de585980aca1f30, 0xbee18c3b704e786cac60a70a155341f6a126d2fd6013a7c145a0ebcef4b1c19, 0x3434bc3fa2c21f3e0412744f892f2740b424e1c345772c836bd1b1b96b3e5540, 0x6799a9ea9ed2db99062058b4940c3dc05c2adf832f3e47609c356c1f58258232, 0x130a52c6ba0acae7b7cd2cee4ced8ca8d3af06da7e638af08dcef92b191d5f01, 0x5fa7e20f50f522315cc4e73de72ecf3195d9e5cbf4d01f1c20d3ba63cc2859b, 0x3d218b2f4d3c9850f99a23412b054d9f0fd23a7bffde7cf0a877cde1ead91428, 0x31fc8bc9b71a9ebb12b493e3ff93c749ec0b1a839a2a2f2dd5292c0a38083124, 0x208dfe5385c41c5e07d07091d1e12e84bb0ace1077d4cf9ec753ac99757f2031, 0x5b9451184320e5eb72adbdb063e26c5e4fb94957437bc228f4a4e410b16d96d9, 0x29bad72db791a1d5afe4b285b0a583e9dd34f05a69ffe588c2133231cabc16e, 0x465db16bf324e1f2eaf7c9a755073b071a5616c1b9b5ee2f3e3b43b4b82ec5df, 0x4eaa1ccc067d10e128b9388d1a23f3eb9d0f743fa76904da908b6f74484ba9ed, 0x3496f3957507ccf9552e5b5248d6761e8c767ea28f216d8e735e8e46560817ef, 0x51a6ba1415057fcc23c94d5c72597e3847bfbc0157a7da561c2bb7270670b0b5, 0x6fbd5057c3a2f25dc0c8f35ba8cf7231161dbb9203cdd6ff1754b0b4bfb4a429, 0x6989d0cc23eb0dbfb40c4ea552dc64dc7b93bb84835961b60bcc20a6cedb6d76, 0x1e36c9c5fffddd9b4c7396fa16ba3e8534e411dc185bab077fb2bf36d2631c05, 0xb8910d61d6d35bbb83b74dbeb427ce11f884eef551e6eb1e164488a7fa3e813, 0xc83e579eef96ea254d496ada8ec89505a14a05ac1cbabb53df1f951244b1d48, 0x4dcd1c3e78498edf466efc77c96e77d8dc0631a98e28889249d674f75751f58e, 0x3f171b85a3bfda770543e3a89657d6a6efeaa52ee1bcaa71d65548cb48332648, 0x40e09dcbd77b30997249d659bfe8d2e7ed9a9588a9b206028d6d5d6efa14cca3, 0x7ec3c250276e2db462253fa1f28c12bc8e118f520cdc7be161949d41ad89c2c, 0x453044ea0e73af2499ae484af4917caccd0da4745310f2237915f956ce50e9b8, 0x51c60b404595c86f893efd78231144f397da331fd3c7e300bc48f61ed7d19f58, 0x5bbb8a349daec80a77c24b856172895c0035fd1210be98a2c3c9e2d346abcc6, 0x27961fd54f7c038ed9d5cbc79c17cf3c366c62e0a1b9852d2f67e10cd8b0a032, 0x12264ae0ba64d81cf3be36402e0b24ee081ee2eb89f522530ebd192d030f52b, 0x61057484dd539b63d0a1740f4d7529b955b7303e0fafd7a0eb3a0ef960911a25, 0x1b085c7b6e879ec929e53760bfaed5151e79b0ffc85479c5072d859c237c689, 0x6bd8f689fbd10cd5a0200f4582bb1c9941988b9bdeff6c4ffe02e67b1178f143, 0x1218bfb788122c6460850d75efa913d8b2d87b589e1255d44809f81ae2ba323d, 0x5bc00cccbb91a021d356454ce3451979acd03d4155af7052574d89cff9ecf8c1, 0x37af6153ade5f7422074994bb9d9b303059528a35708b189321dc4d83dee1eb6, 0x30ee1010ed4657115f98cde36863bdad6454b45178c0606cfe3bab732f25f05, 0x563b65dada837ebf9075eda9a2d0ba25a8eec688b6237d0473a3175aafa9a92a, 0x4aeedb57c33cbe75cac48de621c365c6a8a3b797b91c6f496d037897979ef0b1, 0x4acd2669945235931f880c5bb106e3549f4b9f3cbaede10324abda8b1079803a, 0x3df39f2233b2bfb2cd853dd8696ae4af8890f501296be5089bb65645d1c9191d, 0x27f35c13ddadff464bfe509b0c51f0ed3d235d5ec92ac79307a009910a2cdf89, 0x56de1880cec9021a748c0f14af9376f130668b006e70273b58b12300d37e619f, 0x6bde74189fef7b645fc2091169ea9f7e372d3ce00a3082a9fe9c2c78224c4cb0, 0x3145776c01bd4524881a787d80c1c92ab26f8c960ae491af2f6fda3b24313e4d, 0x10d4c7a1a2cca1b534d05e79ede09278a9d93b0596c71feb0bea3d5a29dc2efb, 0x1085ee43c34709a4d1326257f0bde4349b11100326224e4ea8131fd03f8c93f1, 0x6ea17b6a2f665267a066fd69584f6af9070ec29f4f026cc67c9f1f9e9b984ba7, 0x6b44c1c9fdd3c012ab117ff38fc23072882678e65c54d271ccb68f62880e05e8, 0x5e53700f6ec3bd427c018f976737e43cbc296990e02000dab365ec5824ef3e89, 0x62e85ee85794baed3ef1c4b95885ccab96ce919fc6c3e3403695a3ca76295193, 0x3a5bbc4bb17c0d59a66fcaf287360d3b715a595a4273aaab801a4b88253fbe09, 0x4be180ce1ce1174a3b34fe4d68945e7d160c8fa2972106122243dbb74ae0b7e4, 0x5f3ab96976a58a0e0b19e5fa04db56229d127d0766cb6e656d25ddf7cfd50d96, 0x137fc20e78fb4db52ad3c1f767b71a2e4bd647d3ef24a94033c5182cc56685b3, 0x258defb0fbaf42a02c367d78672d97b7bc153ac87568cdf4d03c5867eb4b7f14, 0x72ce04dbd8161d4c6a8aaf798874a72ea937795fdfa07cbdf70f5f10447bec7d, 0x27409d6f408b77a899bb597681fbde594a95a8fa5d6c46f8dc47be2717323b8b, 0x4d0a7029b6aee87292ad7ac209a9d0abb7a5ef30670d5e6f1ce3d865996eeeab, 0x1d0a2bb5e42603f1e387d43363fab07aebd8d312226bfa87cca59d53a603d593, 0x3456ea661e989d5754040144bc7ee7471bdaf1b6948b2d547efd6a619c0b15fd, 0x27d2ec378acce224e231a45a6b8e81e1f0f5bb89a10c3074b899cc2460389986, 0x6c32b9835995103d0de70e3b52cadff71866fc93621b17aede80d17d4e747e38, 0x5cdb5f5292f5d3c8f1e570c44b12d6199883a35371c46103bc57f8518e06b8e0, 0x1974b8a57bb669eacc2765bc14862134ca9f9d37c0ac6c78d2ecfd9f84440bab, 0x52b395611a5da677568faeacd3bc755d8f3cd52ade77995ad484d92acb96a5b7, 0x20c2adc23e7612483f9094b0e8072a00ca775e411a344b3d4285e17dcc5e711, 0x43b2809417ce120203713f57858e3ec7a3e5cf0f2e4c40fc00d0daf7af02c1a, 0x6c8185f29eaec8cf5bddd56b9d30a05d4f4de36a48b941309e849d691de2ae42, 0x88d5b4d2179788d4c920e2e9eca3d6ea9962307ea8f6abbf1328abd1c305100, 0x3cb33f9ce36872f10f5751d839ab54f620f1842e3db1f641c39765c86f9ae055, 0x84b658f856bef0441c10040d837373a4f17a1076b557ab3ee1c7cb7c001d823, 0x6ad8a49b08012e2be1a542e7d3484d282efed5132724d1f2facdcc8a07cd07c3, 0x4e77dd92c84bb1f3c46a454972546fd1c910ed773a43ab89a1d122996abc1d99, 0x166c9ce854324e6746a4363fa80574f866481a4ef9b918c1d32233b65b6b8d1f, 0x705e165382c58929e0a2e20dcc5d592df1a5a495ba29cde585d9e9eb7647122b, 0x2dbcae9105af5ad365adcc41a2836f003608e6a0dda35e5185143da53deb43a4, 0x4d4abca432802a4516ef83f782c765d9f0fdf217a732d0e799d67cc0fb08ae91, 0x358875ebeb5589308a103cea5986bce71854cfc8e64aee784a8b19a7c25d01a3, 0x3475fefaed15523f0eac4094e5e3ed7c4712f8ab9a74927f4d7a061de0f18b89, 0x26a57ea6831facf0466bb7489eb5dacafd4ae131c0286cc3502c5456f0409bc6, 0x1b24405be4cba379ea2dbaa2b2af6e3011d20c2f91ccbb3e9a5fb21f85217b61, 0x5202e35d32e60d37c345ce96510565369aaef077529ed350f60b0ee5db845ab8, 0x72965e126b02bd4fee53f7a916181fac10282da68ac1bf7648a98f3c9e0bb97b, 0x34b16f6dcbc82ed32d095e9968ff0f616a7a0132f638373823f545494e2d8074, 0x35c533835d9849d70db6f57b20634a8ebbd41cbec9b0d903041839723a20b912, 0x434cf65e7675ccf400fc7ae0582247effa4937b0358e5a364065fd75b0cdf8c8, 0xb7c404259d4e2e8490706c50a78d499a7804df73e793473e308a15f8e8c0e4, 0x27ee3d3fd81f3a9082cca4d65a79f1f1ad5db9f6f159323490d8136232399a7b, 0x5dbfda5876fdb0e1d699326218eeb746763a175c73794327dbfaa3428f7ec187, 0x1763bea8830f6c79092627a60f3c1a87c612bbddf7f72a46c7d4538377ec6aad, 0x15583bb8c090777a5f8f37fc726e0a20d47a36851bb13b8852d784838ab48b06, 0x17445c6e73ceea13267608bd1a1d7337c585be0e62459cfb7d2b1e2b2c5bcf24, 0x59de7605ca24491b2134d0429197c5530f6fc6ec32c2ca7f869c95bc34c45ec1, 0x55923ce408a043d7f227b27156cdfedd7ca3e1cd13ca543b4c1fcb8d2d3c6b91, 0x2b4ed29e179961df6c64f4983778a26a7a4159cdcf01331a8c530d1c70deb61, 0x6dac2452b26e6c157f49d06d86c30799cc837e639b9df19e9ef917abe23fe520, 0x60fa3a1ce9078184ce98382282fe74a3553be377f2c67b29bcf3caf14831fa48, 0xdd786cf6586f2ee36a30d0a6743c9e07bb4f16bd57b96656b097b2ec590879a, 0x67a5d03652fb4f1f6d593d387b46302891a1390a22e91497815c29ff1f1f5168],
    M = [0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x20b29ec8afd716352f44d3e802b77e91e9aba469df2d7c68be5be5be13b13b14, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x20b29ec8afd716352f44d3e802b77e91e9aba469df2d7c68be5be5be13b13b14, 0x42a8a69c9e54280983dadc37d256a9031026a4b4eccbdb4c3999999906666667, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x20b29ec8afd716352f44d3e802b77e91e9aba469df2d7c68be5be5be13b13b14, 0x42a8a69c9e54280983dadc37d256a9031026a4b4eccbdb4c3999999906666667, 0x87b891f0f8866d354eb41c2262b0fce7046123ea895bbcdf9c18f9c063e7064, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x20b29ec8afd716352f44d3e802b77e91e9aba469df2d7c68be5be5be13b13b14, 0x42a8a69c9e54280983dadc37d256a9031026a4b4eccbdb4c3999999906666667, 0x87b891f0f8866d354eb41c2262b0fce7046123ea895bbcdf9c18f9c063e7064, 0x3f7c0c646607018f283e2710978f7c6470e7d9d0e1853260f9e79e795b6db6dc, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x20b29ec8afd716352f44d3e802b77e91e9aba469df2d7c68be5be5be13b13b14, 0x42a8a69c9e54280983dadc37d256a9031026a4b4eccbdb4c3999999906666667, 0x87b891f0f8866d354eb41c2262b0fce7046123ea895bbcdf9c18f9c063e7064, 0x3f7c0c646607018f283e2710978f7c6470e7d9d0e1853260f9e79e795b6db6dc, 0x3e021802ced14302e5d18b5d99fd43eb0912163d23b7ae3affffffff7711dc48]).* from "../poseidon"
}
