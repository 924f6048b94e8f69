// generated by tools/gen_poseidon.py
module bls12381_t16 {
  import poseidon(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513, T = 16, RP = 64, IDX = 0,
    C = [0x1a04b22dd9ef178a08c03726d8ee2061273d8bc64e1fdf34907f43cd87f1ffc, 0x24b5eeda355197d526646aee680a2a6117d4801734ee487ae08ef9b33ae67f8c, 0x1631e8a804ddca98a8221d26cb3716f465face4e4894372878910586677d321b, 0x978fc0cae0beec654dff50bf0b6d3405650a657a530c2bb8d8ddcdf19e62b92, 0x726d6e94f5232eb213579fbcf7122af2ed60d334e07b8389639be42b9686d9f, 0x289f2c90dc04a0736a000feb8d0a3ae60a267ac721b3bd1aa712e1222b5a538b, 0x3a2525ff26eb598147ea61d78a8406cd5c0282de82a181cfe6fb46ccad466443, 0x6464a8470a844bd57053781e60dff95fd83ebe83439d5843746442032620467, 0x594f23870ec3f6cca415eff0694f413e9e7969962211f216c667820b7dc3aa, 0x2ee393e18123cdb105a483a0e8b7e1cd7bd34c2bf1a27da7aa7630062f0e0e65, 0x3d7ce001b6bab0a05f03e15431f89ab7431537198f3d2f1c451eebfa28f82815, 0x807227dd5dde43357d3c42181f6a0a28cefa344061da1d54f4139b9fc690ee7, 0x23e9600650b6027bffa57d2f74066a2a627aedde8deb147ecb5f71c0e9309e19, 0x43bb93017c25f022ad8feda27ef31cacfa45882117eebd8da3f6d0f551fc78da, 0x51b57d2e9c0c2d12c56250d77f6ac3d10a5b384d04e15bb6ca2ce725f636b154, 0x6d7758a1dd4c4cec3a07ee9a033384c718501520a7a549213af831297a0af549, 0x286af5b12f810184bc2a3819a3bffd6ca73901b85b8c2cc8d83b68c02826d65c, 0x6d38db506cc1f1217db33096186d2b6f6acb3673b0dd623bc503d4ef13b2d60, 0x3f285c4541b3fe159a242bbe33c5aae4f3f3c7979620a38e44510c9ee58542aa, 0x64c28713c9e788c74b1e335f85d2ce771950e9bf753d83d944850f6c2ee46436, 0xf5c6bc3f9a807edaa12891adec82b597c64c076d2334d69737344f4ac241027, 0x65992f412edb0ea0e1ebc7c96df658747dbf1d463e4e7b9e5b46930239a2c143, 0x111db87fca5fd42cbb46447bc89d2102a3d54a49315bdb2c0338ecea41c1639f, 0x25427f8b9eaa08008edfeb072ee58af6be8f97198e9aedb53f31251aad05727d, 0x70faa43dca4f4beff1e9dae3f3a2f0541231902c7b71ab5900be2ba1f53c19b0, 0x1681c0be94415dfd7028e3d2bb9e4c31e467711de065f069af2b0a5b6a04b07c, 0x62d9c9df0f13b0f4b980d5c458cb50c751a49e374bb25aac38b108ede1ccf98, 0x2b0a212ac35493e14b4b16953c610ab677499adb14b6c9f9bc06fb72532c1c0d, 0x1fded002354fd71b1a5aa14fa0c4d0dd3f316243fae84051ea0f0c70612924f9, 0x1eba06cc1414c22b1ff7aece392f747e6c9dcbd7d8887cb5565fb35aedcfdc20, 0x67bab7072352aba62d11bd5d512624c08bb2ff914bae09de3e87ce89d7bd1afb, 0x47ce9735886305ad997f31cc4021c0866296ba6e97e9dee5d0a4d4cd46b52638, 0x28b849b6ba5d287f0dd34f65ee2f24b991403bc65242098623410eb7eeb4d9e8, 0x71d74a2862d973c3a12853bee668f05eb3928575c3a5ac2020bf7e3d51887cf6, 0x5847f0357d901187b2d2c1b06012960c54594a35c306f0c9cdc9e8a403af4e98, 0x65cdb6f08d4b587cfd72d18ec826b7acf500a7f5dbdae1b046323f448c32f922, 0x62cb31949f1c5c9aaab28461ad7ec3cb2312d3125c490c2142d35ec79bc36107, 0x2ed910784ef99f4623318cb6a479a6a37854295a6c96d031882bf7ef4833e6b0, 0x41ef9f8680c9c495bc2fa14e73d46ff273509fd11d8d99b6220d8b070cf07954, 0x260f2bb4f937afcf85385e20bdf0252f1ab961741472a74922816e5f3aeacbf4, 0x64f4ee1712818efd83276a69a1b7c19520fff1c0e7604f44266ddb669e81b1ac, 0x3393dd41d4271b62c3320b04e1ab3b112d9c6e2ad0f5a0ba3307f21136a735ab, 0x7191da6090be8744c0bb8bea12005e575b7e9a9e8eafc5d87c4dd59f034a2918, 0x70b95200a1a44df5b93b46605de97d7ed2e2e3d940407bf574503ce0ddb893cb, 0x528355b23367d2f3ed7880fb66de3e6ed8bc44fe2752bea4c108251fbe9c16c1, 0x3e46e3583626865a84e082462fa06a6dc01a30b4a646e8ab2c55f2b0bcc235ed, 0x26b30f7675d6fe2fdcd75b7b2cda7c22ec210186502adb4ce0874b93e1830d0c, 0x50451f45d2ab7127281fab2321fe02ff2756f454a86d699a92e15c8b9e07a1cd, 0x43c4c55121826f4fb19d77117421b99f9045fcc0d676c971f9ef9f42a5a10307, 0x71131d890932049510ac2c14052eaa693e4cfe8699d7724f3ed8051ed04f1b42, 0x4ec9bad9d02d82d5397609ef1c7cebc6eaae653eac025078ed568830d28506f1, 0x20aabe2b7b7c24b3c2536d8ecf318b0c067bcaff9ed13e377da03f4e171b5b00, 0x1b274e68601f10f5e9cecdfe2542b6543022278f36b7cc1b87a72730cc155b64, 0x43f2ede21a66dc2a2699d3ffc9bf9b3e227be62cb925920268be2d008d95e07a, 0x6c83298f8ebcf1a5b4ccd84705f98eb2dad50d4421a767304e5f14c9a5da14ae, 0x4c5ac4c414a14af3fd2c7efdbe27bde32ea1b2ba7b59690eccbd9677e50d5bd2, 0x37d038524fe61dc0186515ef18e866a8307ba23f3b04557ebd0290de0681bc50, 0x37a19470166a22023b62858fa56650794e7db2f4499d42ceaf1b2488e7df63d6, 0x23435da998ce57cb7cc2bca33d62f20bb6a1f9f9e49b552cbc0da6d63749e572, 0x517ddd1f57fc0cf121b9d73fbeb3c977619476d77f221b7e9514399387b7cc4d, 0x4caffa2275d15ce1aee7f435891d949ecf6432d1fc3bad7ceae6e2061652160, 0xfb00c5ec1f24893d7fa027d1d2cfef702dca5f9a431652641fad3deaae90218, 0x2856432d169fee4a640ead2fe6367ee5675a761b6a548a9c751b13feac6ae994, 0x3f750811e7fc1963ff5c57d9bf0e007cb0cf1724861210209889fe94dc7b39e9, 0x142b33dce0dd43912965c73e73de3e3ff92fe028d226ded9fdf837c754b1489d, 0x43ff39fae33c64168169be7594309edf00b27a5577363f788662e59f86878cf2, 0x5b6e5bef5c899a09e60c4e467791693ea9535770683659492bc83987b96dd49, 0x337491fe5a01d7d549102da2361df4493e65285598735b3d1d131a70f2cdb4b, 0x2421601eeb44c45cab44c5d7b722da9e9d2a657b2ae62575f4f7e68174645526, 0x685b807836d76015ebed8f485ac4c87e63e3f2c7c2129e48b12b7bc750bd199, 0x750a9a3da9df1d75bb37d81fa1ed61e0906541463588d80ce27ee6ab5d42c46, 0x68a7aea983adfd9d8fd8d39f2fd3446e8fa0b455761d9d98683c37a980cf8e9a, 0x655032c4d0dc2c488b25e92b23f4671dced216139595d5a12612edd5a2226b8f, 0x1d9d4942d29412d243d7ea29d5dab26f218b724d2626aef09a1dd99ab9167f92, 0x1a2ba2a36d3eaa3f76c931de430af60e3945583489c12de31dfefbd39ff89aa1, 0x6eea2a502391674437b2a4ee2a9317921128da26477594325285dc75c049e669, 0xb96502e201f68a95ea1c760efb1cd8daa716c62b48c9ebb9b0e5c1dc54f040f, 0x5de17020d839a9cadd6fe99c23d88267480899a26b8ea6831053af0a781c86e, 0x6aa8c058235094b531ebdf28809c5aaf58014d9b16f2cada17393ce55f77e736, 0x356eeee6718561a7b74d76dc7c83fa3a798f9c3c86bee7c7151dfc8343ea3bf, 0x4eef2183695d054282a8318498b95a44a5ba3a153c9989ca028c49eaf4ca5477, 0x6548405a9cdf1b11dedc25ae3adaf3293808fb6d45d8dbb795c5c3653ffb381d, 0x41619c7f264dfd82e4417c88b7df44238b7a2a191368b46ffe254a9f511015e6, 0x329385a0b0de1180ceb37c44e063aa32f5be2b61306f66a0229aab5fbb5783d, 0x4592951de2d8a24a78f77df4b747a74ffad5a355f1e0d4b3a4a8a71b689ce4fc, 0x457c8d21a7e8bd7cb60fdfa861bc2e578086189fde1c777b36a72aceb14b791b, 0x1e1c8aa104a2c4c07985237cbdddaf2bb40f03daf1d20fbdd3ccee91834edee, 0x14be0bd6c0f4be32810bb0c8681d3aa8e904a1092d17955311ab0952f5b3172d, 0xc55029a8f6b3e9b7e4303a5f7e36b16d3f0947afcda1a3ce89cc6774e58821e, 0x2dca62835729b85e81a332bd1b300fe83d29ce3b14c861b2cab812e179444264, 0x6287c95ba84dea5e67709948a1f5a3a706a0b51e7ad01255cd99b20b331c0f43, 0x348044f528abe279b57c5fac7d13e910534313dcb44055a18d323f7b6d6bcd0, 0x1a2dbfddb2eff8eb18d0b8430d30b115fc56927b548de0fda042e17aa06d0d85, 0xc7b5015dbe32f09866be9fa67be6472d27a03ac41567e81acc7252fc26e2c2b, 0x10538cbdd73216db36691fe039aba6f8983f6eeeecdbff041815d2591bd1bc3a, 0x19e3e1efbf642e6ea49eaf19e1d2325e7abd23fb6154ace0d46b52f545bb574e, 0x35c5a78bab30e77e2e6121452f468924ac58d3e66083b134aa7d0c3965c8ecf5, 0x5540ae2d6b5b3386d0ec606c96495617b8f4c15e5bc91f4bf0e5a03c7a2aef87, 0x66c59328851945cd3c2a7b9c02b2a1414142e80df1eb68c2d7798d0979fe34dd, 0x3367cc7f8f8f2385b01ef6bae482a04b4704761eb79ae87e4332298c79e035a3, 0x3fd36c8f9c3fd303122f626a636ade76f94b22797158762a401e36f14b792e05, 0x5b8615f687b87733f9349a062449102a24f45934170e2e504fd8e27633842d1c, 0x521b788a8343679b99144e9ed62c0eb0780a8f8170645d43b45dc05827e3f96f, 0x320c65fd41deba082ce4427dfd22c6d0ec9b66027d6385c384c7f5d1d87376b6, 0xdd737a599061ad355a8a1db22215f85a2e161e87dcb4458a1969fef5fa9e489, 0x5a857e285f6c9e625c94517979ad08f6b4cdcbee7bedebb8e05597f472716e68, 0x47767524ce4359d5224483c0433628c18429cf013761a0d84db9508a2dee5fad, 0x61937abd7090dcc4588aa158a641c31befbbd205a09ed6e3cd06ea104378b3e, 0x47c3300bb5eded183c286cc662be10daaa96288d44157cbcb87288b676b327ae, 0x357ff69c9fce63801fd84df6c248789def4bc7cb6b8ffcd92e4e58817bc2ed4e, 0x436a8b08874425e75d5560b1bd8d76e0257710ebd98cfcb293caf68edab673f9, 0x73cf117fcc001d6ccf0ffc46ccc2652360d87fd2333896d434e679b953236d0b, 0x2f67bbff7091b38fafef52ee528b80fd392ee154aa412063f93c0913d1134251, 0x2fdf8007ac8a4e4b7bec23072c69f28abf69a7d376dfed8d38f59f2ae14c9488, 0x3664855a84d47773f392417bb273670f8d4dae5e7d7f442d6a228043e33f03cd, 0x4b78deb61636dad585d0e77f63d1f949bbeea9d673297a62ab5dc0f1bbedfc3c, 0x559aab559128c9e123914c4996ec4e40a067761035b6d9fadc570220810b7351, 0x3d1ca5416f24085941b76fbc31bf8e50936ce6c4c8a893f8cd895822a0163a92, 0x429d7849c177df5b54edb63ad64248e636060a62b818ab6be6626167e81e850a, 0x4aa496df468543a985241965eb92771ac922133ab149fab52b3407be51a3e9f8, 0x6aa4a73e921c3dd94f940119c0dba8814e415cfaa1cfc22c58f6d6fde8ec7e57, 0x6797791b3c48f1b61398f982873a65dc3d4e8444307f143d7c41418e77629643, 0x661d5ee5c52df27e47bb43ca6a5b4286bdf7ee737187b160a84538c96be35b9c, 0x1386af3725ed594d01a225b21cce72ca7fb9ac31a82bf5b7aa1a3d844659f424, 0x4c91f32d84afdaffc858edcb919199890871de678035a16845063ba5014b3f4c, 0x1bf8e195186bf87685a153541cf0c87fbbd2a508f0f2f90b5c09f8a9a5c39ffb, 0x25081013f8558063f22d70ed9bbb7420d4e263310fba7ad58aa4c5d61eaf4b17, 0x6ba194a91baa656a6bae9806e5efbc376deaf14229c6a1428419ecb132bda515, 0x6ffe768beeef7a36697d8fe2227d7062948bef5a2e84744d5b4bda6bacf10c8f, 0x47019b0fedd92cd47fe6a59888c9fb1a2aa389d782b78b365eaa8591710714f2, 0x555f6475d3eba97c80cff2205eb533dbfb2eee8439f2bb110c7bdb01326fcde1, 0x4adcc0f688346995c9e3cdb63196530a6d6c66fecfa413bcc8f1d4a47dcdbd91, 0x13d17dae81cf577c967546d2bed6fbd47607f356ca6e945b067535ea3c693558, 0x3f43611b675eba66005fa9e678c01aa3d5fc0fb13e1d5b4914627dd3ae58fb52, 0x2885adef1f4a372eb07b8e3a210bf6f387555cbc200eadee6725a9b1b52c352b, 0x54bc32ad6cfea25940be8606ea0e39cbbed684a75634e3e9524bb5550e563301, 0x650910706315295ac2785a20c04099b351463a71699f09bd7f943eb5b0a83641, 0x5889beea9558282cf357d4c5956963bb861d0fe7be1ffb5496f981e717388a87, 0x26e297fc1ab461ba9e07ac2b4cd193d113ea3e868ad4bef9ce7cf592597ca56d, 0x4cc3ab4265a5cfb64d0091252281a8ccfe7ff2daa35ad727d3fcb5744b99bc97, 0x528c54b7c1da9793020dfe7204afdd4180a5998ccd8f1d925566efa678546031, 0x5fa86668103f4e64fd7b90c8962c1664354a6f7a29c80ae42afa36ec59cc7fce, 0x1ac748ce3d152be374de308ef90754de5cca546cc34b8c605650b99d9cc2fbc1, 0xfb3430cc8e615911101b5906d70574f5f34cba7ddcf933252dc934cd534e801, 0x6bae2f2adba53ee14257f46bf573757de0d1690227664af9aa1a1746e6a19ab5, 0x67ff852acf1e324d95e319e3b911a827def8cf3d03668bf68737a0cd796a6074, 0x4bcf0bb6e718721b67111486defd8596fb33fa9abaddf593e1f786893570dcf2, 0x602ac2b448f9ae2f425c7792bb14cf5e730e90c9f12a31ee63cbb6da73786345, 0x533c99dd1685aa9e5136607e958aa1b503f50fb5c57b64c505cccd094377e4a8, 0x51c2b40b051bf437c3895d61246b804f8451732685579e06a412cbab3f833a0c, 0x4c1409d423e24f2c2566634f2c9af11a0aef2cfd81438f2cd121736bf7e90064, 0x39a24938c99e4ae690dd6b55e85ac4d52ee0d5a5230a00771180305d2c3973eb, 0x48293cb1814e6a34ba4b16a19a8b280da8f5cf63cdf7750ea571c33587f52a7e, 0x23091809cbc08c75a518258f166322bd39e8187f270310e7a97240264a4da203, 0x3e362bd67b07d765b3806e74d427136fd57f56d4ce0c354b124a5a3a385ad826, 0x3d8499060044a3a3d1a048a0080adae4d9927da66965ec232e4cbc2ce84c1f01, 0x4f710cd3124e06d4f9930c75cd80b683e92aa9f4ae6dc6273b60f10f412d9df5, 0xe40948dda3ad2b8911bf98e9d6585530d4c7798fed782c949cb0ee577cb7406, 0x46986038f9daa27bd1658de7acc283c9075d1a8cc6689bfc46f2b0b9185bb8f, 0x5f3d8e681d9dd7d1166143d70d28b67ec2eda4741cdd85942b873761b1e36a1c, 0x670b56f1dea2f2fd84048060616df8f87fbc96c40ef6c65e5dc2c70467d5caaa, 0x6ebd6baf0b414ea5b73208297a5e6774311cd84e8a60c49bb467a9e9f65062b4, 0x50f54aada50418ae2e9c17aa4953bb89d819eb9b3f1c5f713b1beb4dde66e97d, 0x2f89c58b49c82b8b8753b7e1820cb13194f1c1a378080a07fb30623895787ca9, 0x1728ecdce7b0e6083bb0982ecbf40a10225bfbb457017d88671c39197a81d439, 0x54bed520449de88454bfab580a8f47982c7078203fcfa435cf6aabcf845ff218, 0x657b332e4fb56af02f06186bf8b5d0a20615c8a9327880652534a4353fae4ecc, 0x687793fa5a9b6f46ed2f9a94630a77bac5548e0a9ef29c7a769e44d4f8fa43f0, 0x4285e59b12b5cf2fda6f0615d4640a5520523a023f38d7b9ebd28138d095dc04, 0x651024249eb919e61497acc9ad763ceeae6c4f62da143fdc4bf1c2fbad8cc6c, 0x45ef0e3b390770162eb1a1eb72eaf4335976201a81fe23e732f0ac3a431f09c4, 0x5c256f25856939ed54c752f4de4f1f9d71019daeb551702e5784c3a6e4c3c146, 0x4cff4f3e788957ecba30df452d374a7f69ecb1bf32dc59e989d801face31a85c, 0x61a07f985d7fcfe55237e5e35fa5a51e3b0c59770e11cae6b5d86ba71cdbda4, 0x665a92df170d996170abeac3f0f32723efe734a8126ce0dc6615cdb565184f25, 0x19cfd4972ab2f3c2426394e383558dba800469ce35c2d28aaf63baafdb9f232e, 0x3b773dfbb5709a073663e5d5d427e048f2d1613d31c1c2cdec4918d5ae6e1db4, 0x40f5654d54e03f0f8abd90b9191b0d0921400e06ba833296f22b8c452a11eb95, 0x60b13ed3f65fb9602dfe0d7f6113ba3d24bba3b209bdca442d0bd24f896aabb7, 0x600404564166a0fc4ea5a24c570aed8916a71da73f98de842ed7a041f1d5f61a, 0x5ece3766562d5a49f87ffc5d7117df7361c09eab63f22e8a8856409198900ca4, 0x4a1bb0af4d45b6f8f5a9b08c9ed08961b288b709f2bf707dd1d5a940b46a2726, 0x2b72d81aeb61b0d9910985d283c3176cdce92caa1a748c6396c86449c53988ae, 0x3d4dff09db8f94e9b6b71b0069286f9f9134625e9fcb3bfc7ad518436f4ab562, 0x60aa1f4298cfe8a98e37d4b97c7d393a95279d39721ed865f034f2114013d7c9, 0x220048ef0b3d3fcfc4db18a04f5e3cdf878d7da9fdd9c48c5caf43b6b13f6969, 0x310c752b4587fdb3d6ebce17e229cfb5aae0f5508885aad544ff1755bb35a7d, 0x3c3446a3dc2fdc0d9f74057fd41c00842fe290e30b972a1b70b2103a7c4a967d, 0x59c64f3191f8cf0af7def348c5d08c2013f5c8e2eb56012937f283038469e8f9, 0x6b7f275dc09cd5bdec4566e800e024ca722c6cdcebc320011c8f725b4de020dd, 0x11e6b0a71c3a6b0cbcb1eb01576f7abd5412ee16689069f7d6085019a586e9a4, 0x5dc4190e54b857de42ab1b4bb2e11f56d82233d356825186f64cc0ab22113af7, 0xba6953900f6317dfd5647dbb638eeb18d39addccc0076c47b83517781b7e549, 0x495d7ad4fb47489725472290afb83fee5cd1ff2415cb9f30db531307fcb66cdc, 0x36b3cd8cc51a0f6d69b9e7d92300d18809e8115b69cf87d65c4fa74d9d932944, 0x56fe1ba88a93c45a0b3a3bca1471bb21a3a0f1462a788dc9cd21a2714ece6d5c, 0xef86b3a000d734442eede50cc438c17444d5656a89900595e613eadf90413d9, 0x64d953dd9ed0327432e4a6f1f6378c0b983d6497f840a4d497b61e24a664e883, 0x7318d58bbd4c9437db1eec80e43a5c4adf94a2a898f4851a4085cb5fa88bdfe4, 0x5b7e7ddb5d3c825eaa5518ecc3155d8f9f7a90ebc44e72e8c4b0cca9ba66ff95, 0x57da11799a449675fd31e9591091e715174eb7a921b34fed2291084f4c3abd24, 0x6e7e2630c6be85456a835aaf87847469e698638ff2738e36d0db8c1e4c12adc1, 0x5a5ccdae26a5da4c986e5e0314230c598553de57e435c11b516d5cbb72f9f0ef, 0x3db9f7341462c6aeaf171d919bc1e192518108cabde5f55ac5e7ac92c58bef20, 0x28925df1dcd566557f075db63d26591db4081e15bf5d14cdd699ac9752dc77f9, 0x706253dd103c2470a922a70f5d8717a060ccb5169b2b239457d7ef182520230d, 0x4e9efa08c31ea36d432f41525bed90b37efba58598c9dd48028bc1e1a8b359cc, 0x256880cfd176f4269aae4f974d9899eff533b85823e0feda684d7f7669140862, 0x51d920944d069a3f789c4a731464328faafcc79befa4bb9375db3fc36eeef264, 0x5c4402da49d7a2a088c9c2524a666e0c89398c1963839275a7dd2000ad3ec752, 0x2d17f401791e7890f0af7e2e7f78148fb5d1183ce3e5e42caa3e868cab6b22a6, 0x4847dcd699649b88a319ab5c4ac1be41b24b2ef35591560f8456b1538a47f0f, 0x273cbb6834f1d65ad816158bb6d503abed1d67a41b14eb7e06dc251d8f5e3828, 0x26139b52e9cf3580c6b0da7c72f656cedfa281ded113db4e964b96ee1de2131, 0x15ddbb57c79ff21819a3cfa892dae5db6bd7d4cf1d1fa2b431ff931e9147aa4b, 0x476a4a52628abb2ea9f8e54318e4f280d1b57428dfe796c9a84b71d11d393e98, 0x59bba853d0e4a0f17eb4b64924e627f036b4aa20ce07887c8abd4b0aed2b2b36, 0x2ae3790c2fb4c3d170253daf7f55663ab7d8b8f5487c573d4bfb7e9f8c1d2695, 0x4517e65541b36b364aa0e7d6168d371bb51e646f6c643d0127924368b0167d61, 0x5186be2c4924265fe27d39512d8408af9827e40927192b84a3c16b523f8e5117, 0x55e931287ece39556fd9b5be7e5c946ac9321571a66565b307d9d83401761b5c, 0x1506ca27258df6261d62339d62e2af0f55d46ea94567707c34205df7c77b4113, 0x672f727ea7ee36cd3152330452d9de1de9e632d25d21ea56c4bc2605fe5d7360, 0x3889a77abd969f72168c5cc84de0af555f86f539ffb800a6ac417d9d9b27247b, 0x2ab9aab7e452d2f27dfa987f900b1727100a8fd09215bd5deb39c67b47ad4203, 0x51da0877428cd53e6c5e566aea96fab645f542ed5e3c6bc59868e8a6a974fa70, 0x6fa5e966124321d6d15a7c4f0cdf1015e6eac220a9b566906e65aa82f6d3199, 0x591a18c2c82430ca8611102eb46debb6bc57a6e3b2fe8697812b7167fd3d488d, 0x5e24f1da673dfec3f949173ca1c73d8ec80c80a141a3a9ed1e202058b2fe475e, 0x5c7dedeab7c4485fbf348f8a00725327c2bfa2d4937e42abd69bedf2c8af69c0, 0x4d6414826c073cf906e1cabd5034ea804f749e4be3988c4f7fcbb409db28db4d, 0x204b9662f12bb1e676477e3b5f0808faded945765e258367b4b7a92194a26ad3, 0x24d17c7e242768fa66967d2f8700c2c0bebe0b4e7109ffdca5aa5ab5f7be98c6, 0x539f568971660809f37d85b24c4c40b95118f92d8c102fd66497684bb4adde0f, 0xbaacac62ddcca150881f1020f3282d350119008c55771ff4c72d83496d82f34, 0x36ee91d3a89f34cda17b4d4f0c31fe0bb0573260231bd6bdf2141384b3e5f3b3, 0x2f0829b5772c1a99f72e4e51df2ce20c8b39b7f2f3c5c717e7462d724f91a9fc, 0xf84175eee1040c52b62b8a3d5ed99881cd7185dbbccb474c6b48ac8e8d1eab, 0x5e37434d9c7d0f6172a63aa3cce547b5fd06f228a5caaf682f455e00fe9b201a, 0x67f15e1bc651f8f9029cefa152387e3a032214ae689edef5dd451a6b0099bc32, 0x53b82d9f438c069edc4d7213e0fce6401c9f20d1e2bd993359850318a31c0571, 0x50a1febb82adce6d73be6fdb4acc7ca5084b28326796abfe4a15ffa8338335d7, 0x39fc52c10ec72de8d0e802022854d2e2fec77b7df8c01290c572a32435b49d0c, 0x18f584c080397e985fc97183781c55770e40e367142bbaa101544e7433ec4267, 0x5aa34ae8b487561020a0da91822f6194aca02bea87b8f3c2012c3aa0c29db0bb, 0x62400c4dc5db3d52d9fd634fd3be1c1f43ab2922e69a82b15823fec5a9e3a7dc, 0x6e0826b49d82d53b2a648129d8a9da66bc5e48b9ea5f30d1cc123264fac9d0bf, 0x1020733dd0d819c9e644c6959c6814a5091e3c5f09b8538b8c893b23d4006463, 0x52929b2e3726d5285d41cce362008e6ba9bb031857f055b281a8b7b90dcad89d, 0x398b65f1f9dfac25a899c5fbd3b11cd0d887088781bc18ec1536924a66fa4938, 0x1dbe2195a289f4e3b21ce71085e311de162ade1e329607d1f72c320e14dcab99, 0x6e61a7daba429037beea1597be3374ef829da3e206c3a22d3cb47cee64cc0cb5, 0x6f7a957cc2cdb377bbd8d931a79ba2418a574fedb37793940dfbc5a8a732d2e2, 0x2d48bfca0fbc777179348119f1bbab5474901db8068d27399ff008a19c9596ec, 0x4071bb8bafa64bff34188ff7b3aaa4ad978b7e614003b48dd2acfec9d8c3c8c1, 0x41f2a12184c0f5b9bfc18c7a7c8b61589cca60a0855248fe1c8bc1c75fc7f5ca, 0x1a2152645da0fd887f7da47f40355e0e03cd6c2782e4eff5410757bb36d430ea, 0x423687e9607902b7ae1bd648e0005be8dd43a4d78f6ce920c5143f15299650f0, 0x57ae59cd9bc4c8c7d0873d048ef8e3b2c2068064803cc29f9a614a85e06e0277, 0x3fef8c31dc34b43cce9c05cf6ed365fbdaf53e530b284de9b92a6a9847fe893e, 0x724308f440e1b992442bf5d836692d189013e2c49d85bf750dda404dafc2d87a, 0x3d9c02a948a6f2dd9c1628ff00b29dbc6db34f45b87aa76272ce9f643afc251, 0x2819d8f13454131d62f9cfc53771282a0ec8dd5cd5ea699c0f6d4e90b2b1b406, 0x2e32135598dedd5c99245b62e0fa5c07e7662ad3fe2734c1b666220e31fe2c1a, 0x6719f978bb2e389646f8c0c229957bcbe1b845b475b632fc434677d7225f6894, 0x5173a3bf91d7b4ce0edeb9d058d88ac78997a7a48cec000bd0e22a197652025e, 0x51dada2ede83672ce4ef272e56d29b6c8eb46d0ae621f0ee963637ad0b3b3d53, 0x19ad3a7bd7ba9c0eda7b147b91dc9d933bb19d8bda29d4ac88bd77dbcf7743c0, 0x32ef835decee7e02813722b658634e23b92f60e2f2b1e49df2031b1cbbbe30fc, 0x4c86974752e4660077cd9b8b7b80f20c27160ea0481cdef0d1bfa0c0e1c449e1, 0x35c45720bcc9b6f7ad07c54c5004c9a86883880a7077bf17563c05852190e4e9, 0x25a089d0fa88dff182197552a1d84f26227bb22cbc08ac1186dedffa7dcfad77, 0x1a8f5ee5d3724c6fb28d2537806c95de419bb3613c07a636e13a72a1a5dea9cc, 0x4ec4385a8984e30210eaff4c6c18f1ee14ebaeb34af06956e07f00a6b4ecc953, 0xf99587800e160e1c6201ce9226397261587324e9c46b4859d647801baedf180, 0x5c088050e80abd0e62bd61b34352b3eca17d06270d65dfc4eea928a593ab7334, 0x6e5f6442d47651360761ac77a41c4be259592aef3e02c11c1b51e4f43688b447, 0x17d7354b9b642aa5553096cc97b778f891ffed9520606615d7016e2dd834dc48, 0x11a1cdbdca1c15d10655535447bc3e1791987d40a138f71b4b9895ff4203e812, 0x657b380f136798369201352412996b3e68f1bd54732600014bba614b487f4bd2, 0x6ae635fb894a5371780633aa711236ddd880f6fc49f755b3b2f6f9d847dbf3bb, 0x51025d6ee2d3de139b663d8b764f771a9d4882448079bd5a6a97fff2e652d8a8, 0x229277bd22731ca1793c054a9c8bbe174b3bc7231ff2cfea06f9ea3bed88c937, 0x5831d160999094578c10be05d023775491247113a95860ac2e06f3b6fc79561, 0x6c943e5ade35afd881a359894de002818d497ce36c84da05a40104ad55148f9b, 0x2e4b90add73e8fbe64a9a502732a82ebf9e85988fae37629d9eef9e4d7b5bb4c, 0x7d0c9338b0c9fbb093ec68f07ad4f4fc48708a81c6ba5415eae35600fdaf739, 0x46704f6a354b2d02134a4532d95af5e12c0149e3ff20ec97d3053f6d3cd29572, 0x98b1e12001ed297a14c023cda4d766dc6bf2345ef20cd357cebae680b4af8bc, 0x24902045f1c65ad3dfe47ba12bb56c67b46b23be5b55deb206bf6bf515f8096a, 0x643944edbab4a4ed009c736b1619bfef4a7c2e3d969d03ca7acf1d4398fb8b66, 0x69ee488ff7301620a9088d18003875b8a1b91d66cc53b8063dbb571a98481374, 0x316ff181f2efe57fcfa09d386ecc1e35a12b7eb20fc022067581c8914e7b22d3, 0xd34d43b9474298cae5be0eafb82ce9980e8acc9dc78a3bbcadda63112931213, 0x3e4e7721223f7cf703d40ca12a76ea948567b1851cedba20273dcab3faa817b, 0x4a477cee325aae6b18be04e8c3bbc3b15e1aeb3c13cb73fac6c50c13b8d9a431, 0x3000469d6f88067748c2754433c607b004137710297efd548bb761186495cc34, 0x587d1447ff8960e403cb040dc14ea73940e2560040eb544b1b2f0a4522714680, 0x568838935875976a49d7f6e8723f9238d2418fb0997a164fb8bd5acad85f719e, 0x1af2190ac4fb2123e7f60f269bb87d0ad755cbbf6685ac5e6d6d6a1538527259, 0x4ab548389f5faf90d85e1383b9bb0cdcc4239717672e42f24c08c57e58b4aaa1, 0x52b12914ef06206793f3f77498d29377fd4f2c1c3b0deac3b4407db8442b2f1c, 0x3e11f0f5878eed866695232d0886a7a1595b16fa6a6ffcdc8d6ade710470a3cf, 0x2ec8d5b66c785348e81810383b7c35b81551a4b348f0a0ab87b025a802e169a8, 0x1d9ac3879a3fcda368a2b1b1da797e45da1db9a85f5ec016be12bdcef15b43aa, 0x6c2045444d81b81e595a64603e83442ccfd2ce75b677e12fd83836792acbe14e, 0x775f7400e0be59406f10e87b97d12471e0a4e04ebf95e691dc3da006371d0e4, 0x36543b1efd745a2e493ede653bcddbae590aa870bee3dfafbde7d414ec3a046, 0x1f5f3142b5dcc4e3c0d97c9556b5b408dba048bf60e996c2332845c2a92a8538, 0x5eeb85e22508fb192b26b1e6c7549c06109a2529ae7d6b5c42d040c47af45332, 0x3dddd4a01827fac0df0f219beeae310b7bd4aa27e925abaf6c98397fbebb6375, 0x3d8bea9f36b24b3a502b9dc1cf7ed16f73ffe67cc32d0aeb917891c603550ff6, 0xccc1a16d3ec7e0be3fc3e6d792e90d61166daf452e6e9a0fa7ad7c4f2b3c2f8, 0x341982e91e3a624f5ff43ee1d9825541aa75d25e800ac0085d0cf037a8e6257c, 0x19ea3003a8ff9482ec12f965682e2f561d44edd37120c0d25961514391a885b8, 0x52ed911ac81695d8e782b3333bf80dcbcf65c8261b5996e7e9aec670ec005c19, 0x11a96eaaaacff4c53f834ff29ef97aa059fa826d8644a1ed98c97bdb511e3c71, 0x403ffac137509472a865d791e3ed777d80129ebd3017a41ee14e30db3a2442c4, 0x3206a50a9987c443d845677366014e395d5a9101dce06e213b96167a596fac4f, 0x73c54c9ce8523ec3208d5e3473500d8277cb4804d31fc48ea55fd54e8a93171a, 0x62c8caef5eb0991fd72ede244a46d39093b9eb8001d23e4c8680677116e2f712, 0x2728c3e7e8eedfb218f1f21f5d39891885bb659dbdbbdf3568b58614d0ce1559, 0x40d796c563ded2f66b08a33d34a372894cefebdeaffac60d1fde7350a4174ef2, 0xa7dbed45387ca705f7a688e1a8748b4bad634fc0217ee652e106c0303318024, 0x5a9ee38c5f043a93e736f378b3a68c91caeae28d6943ccc44428757e8d7475e7, 0x345378a7f2922c7cc4064c47aadcec5910ef329b51a0942474f8e2f58af4d74c, 0x66ee58f5dacc60678f72e4f2e2d77d37ebcaa5333d936829bf7ce595fd43028f, 0x6ca2f39b87df89d169033378d5d2e3f88deea2a95b8303266271385a48d98037, 0x16d179fcd408c3e92d2d789c0ead15414c15357a84035918214b08f2b286b84b, 0xa7124ed10c0701617f3933bb7372581b01ddc7fdff95e95567a6e2fcb090eeb, 0x4e61a3d62774d99d14562d4a82bf47a9a2df4fffed11d0ba4fdeaf3968e6ac55, 0x6594e68634e8b1baedcaa61d4dbcfb79bed0f1ad69bc5a7d28e1a5ca8428f38c, 0x38cdb3cba4dcb143089f102e72b5e0ca43790231301761efda9a887f473667fe, 0x41656578ac69c3be718434b8bca4acaca036687b6ea354d6f5e051ff20628828, 0x6d99389e84d0cf6707836f519d47f6201d0603f576a3b84ed2119da75537b72a, 0x6e0f831288ce9ea402df24971a664f449cab5db1666ecf8051feeb58ae153663, 0xe3835e2b4fca106bc0d0e92aef792c878178989ccd53acbf8505c632a5c0696, 0x4ae24ef745bb19dfb1309299effa7ad9dd29f27fcb43af87f0bc58a27b21d41, 0x4916b1655d6df889b47e27f6f7b3bead3d3e58436d54cf6deb6a8fd337b1257d, 0x2c4cf731d58baeb346a4419914485021616a0a6623e11a746d7f18f6c1f3cc8b, 0x4d90a618aee3835c0f287a4f7b2e27718730cd3eed6410e38d57016f3f8ae78d, 0x3c1884746280b4790c12c1d06fa5824d0cd8ae9829e0f6a162f3d6252e9ae42d, 0x5866497d0b5de6a64398a6d11b923ffd73eb903ca68045b59c1cb9b7ce4ca489, 0x4911ed598402393adeb98ebbbea1bcb007297bf4421d032aa4ac361fce3152b2, 0x2c2278dd0dec7279b9983be0ab04bfeffc3ac3cf87cd5d21105bb1ec8a80cfa1, 0x2b1ee0d8641cd88313df3fb1864535964bcb726743e5885caed3d1cf88c2efa8, 0x1bb9a707d5ea1032d9a5896a51792516f9165b3459306daeedaf00be2cc0e854, 0x218a6f5d3e7fb3f359e563944c6d55e8153fc4690b7e9570daec0f0b7d6a1fea, 0x1f40359b0c84e9d085539150cbd7ee2806a26869a931274865a49091cc1cb01a, 0x3b6532ab9141b84d03c528776af21839ac10d7cc07c8e2bc27fce39781b6dc, 0x36884a9ea90c35ca03c63a9ea81eeaf97f7a55fb707e0c7e8a98a4b0c306d2ca, 0x3bcf417e8389cb65a1de1fa4ee84d570290a9d88ce8d680e13b7d76a7e193c55, 0x3d39faae8eb648750ba582323cbad6bd67281cf0fe1d661941fdfad76e9b9f37, 0x63664f8bcb0766b0bfdc34d92cab369be712f92896723dbb18bcb9c409c85781, 0x272a98e57dad209c585e1838e68126dc72be7d6f7f9dfc65666dd379cb1675c6, 0x511914775f139d1f9202bc542ca11bbaf1017b637611cc0b2eb6d247ab999ee0, 0x63a162029918278f2220783aadcd3d4f60d40b734b303817020f2a4f95bf756a, 0x3f59f685791a522b706b6910adfeab7d858d290ac91118ed5d6f69414d1fea62, 0xde44aac318030b43515a781697e4f2f0b5fa8d780fbbe1b390de526c7859e0b, 0x360ecf8f4c14067f835ee798aef25e145bde9c4aefdaec51e68d3531f2bd941, 0x62dfc2cd3a5148302377939fd7ad98cf0a88aa2a3b2b5674d61e3f5576c63102, 0x150ff9b9b1f5afe6ae5b2a9e33446dba4345141e0b9b0a14b5f13c7382f401e8, 0x5b6fdc2a6a36a87ea33581c02e9a91ca491159afa5ec9639285d84a6780fb6b3, 0x4d6ed7e33ffac4f36227a21fa249e39c978eafb92873f930a22ff156c1bc5e67, 0x1f889b2f377aef3a1e2ee82a78bb6db81af2606c84ec2ebfaa4f866d77801f6f, 0x1fac0c2e2fa6a75802c88a4884cfa5f23eefc3773f9f131e72beda5c810a968a, 0x3a9e233246eef69bbd446376723bfe6e7552af9ed4652043f1a30ba899889732, 0x6b050198d6b4cdeab45281400b4e5d472ff93cd30f38e8c79754b60e4104b148, 0x1bb7fada6f14f3b88ce0c5bbc32270eee816e59066a65ccd06ad136f32f2670d, 0x41400ce9667e5c954f0ae63631c55e0bc7c884958f6e28e4018757722ae6af48, 0xe298e5b0082b4d20f859cd68299b56158ce7e73475cfa7ac5aaa0cfc89d1cad, 0x5d3eae01e84b502bcd8178f0e6dad907af22e770e490b61b8a3ccbf659fd44cd, 0x179a888fb241913ca14e588f66afccd27472cceaad82d7d67c27daee86a83fc6, 0x19ca7e2858c3b1d91acca2590c6c6ca6c4ab92dc5343dce9bfe5cbf58f24feff, 0x286af35767c7157cd73c74615e2a32d017b3e62f2cc7f28ebed39bd3f5b8a29c, 0xe8311b1f73145f10382069a7f6afc6277acf8a680db17f83196ee043f4b0760, 0xb9d9f5277ec0c123ba2ae3f0ba76f7ee8271b2a9cec9f1022729e215abb658f, 0x40a323d182181b5a04a028f862dc7a80ce56f9fa4db352d1a36a8c9d84f03ba5, 0x8fa717b8b25bf0a89bd2ea434545696729a0cc1b86ad2b4be8da9e2d70f98ce, 0x23f2f5c7ec87d8003129639f12e7ce1fbe90b5aef2d46be59da01261bb7023de, 0x8caed81586462d78124679b6c905373e9f472bf7314c54c4f102ef87fdf58ab, 0x563ed994bec3d15befc571c95ed5bdc122998673b678fc5620ea5f6cd3bf4577, 0xcc8001e6ea66be336253c044414062a2a17d52f8a09aa72b60a2a7f718d2a6c, 0x2ac7fbe5060e5189f2c57c7ba11d35896aabc8a2b1d4049f400b4e73b602f414, 0x6608a592663c4012b5b81047788ed3b2b31efd37430222bd4a3e58788eaa0375, 0x61c8763c5394cdc78519e0f4f1c1f3ece218f096df91beb2e4ae6fb843eca9fe, 0x459b2988632977dfd0a46ed538a065ee33a99e9b763c12472fc81d5a96f07ffa, 0x9e3cc2ecf4413206dfbcb07a7f4b0e2e5b97eb99589ec2222113a3ef1352c84, 0x25d9304f49fd32e6b28c1821ba8309765a93da2cc18f4fe66cf88e48152033f1, 0x54692c6398b77f7fafc195993436eefe4a359423fbc414e4c7dfc17343553ad9, 0x603dee4d0d2e03429ad7493103d2bc1b3dbe17f22540818f2bc6b92b60923eef, 0x4c99ed4c9832e6e1515b973a618fc378e0094dcbfe5d76017eaaf95baec153c, 0x39d395b2836ed44e7619bc4ea8c2732cb2a532890320a849a8c4c771bd5a1598, 0x4ed8fa54e2279d7c7541152f6e5916ca5c56d3740e569747b8fc743d15502c32, 0x681dd91b5b37df156b81ae6c7b93da3e7c99b4da5b5df021f20ac253b96fad8e, 0x112e38cca3d5387a0dcebe95713d5a381246d42c57fda1a0d3ff9e3088919183, 0x421070b583e62c00f15987dd9b7af1a87088804cc6549dd893f36af90eb0d977, 0x6ad5b37753b3c405aae7e3a1c5cf075105f63340e3d4b4b370f002a9dfe3df11, 0x4aecca855225bf9adb3c988a6b00e5be684eccc265ae510361946df320486be3, 0x2b051bdd753f553bb4a325f01dcae77508136235b364ef676ecaa669dfa1d7, 0x353b119f184f407539fad7c46632717902a2714bb3aa116f0577e14a745bfb94, 0x7396cab5795b58505c88b338f8b4f78ca56b1068eccd9509d001090986b4963e, 0x3d64d2a9b8bf71f8d1c1a3c3f3a2e9e076dc652bc86355151290dc283e57bdb2, 0x3bc7309381554fa5a11978c3a222a65176a31950ea493df91c6f94202277877a, 0x2ffb460c994a713fbdf82b3e0bfaf32f4f9dcddb2b3393e479abb6782c120d04, 0x5c8105da3fd0424e0ebd0c8aa84517b9d8354ff5546f7ffe2c87e13d23847a7e, 0x49cf913ea3bd1399ebac567c4c02ad8867d3b139a9dae7e80a6cd97a8331cc66, 0x3ff37b18f1f1c9a199d83355e0cdcf96cae9460628261133bc22e3db8237554a, 0x30b4e04419fc89d82cd537e9beac045bbc8b733e919c89cd6d0695591dc0d4fe, 0x2d5edda1665d5a2d111c2d00b2ced5a2c901fcbe3eae5902f7395aa5675c3809, 0x604861eefa4b7642b2a0130273c919bbe721aabec015e9d28cf875e8a5d22ea5, 0x1d94c5eefa33f77fb8dee2853777623f5366ea9278525a5c27721d7903a054e1, 0x3c7428e00d68b27a1c6ec46f03060da43be071854ccb61b9c6cb3215a0fded6f, 0x2cf972eb4804db57d7875807621368e8f88cb8c9b9dd126d26f78bf903766bc0, 0x5efa1b6b7a7ce26d59509539770c8696c81d900c764a4d177def390b3593e0c9, 0x41ed869a019ba34fd18b832ac8ae8925748ffda5b10fe4fe5290c7e17e481ac3, 0x14902de2dde58ff2e698be39013d1a683426bdaede93fe0c9f86ccdb28540729, 0x735ebb7bdb8caadc585069114ad1222939ce79538c66b85a2ea73083c84358a, 0x6c71d4cfab66dd94f29b2c8f8f318117e35d913c3a81a266a343fb9dd43a94a9, 0x1d400a088c89a9a20498b21d46b00b2837b3d7acf33e22f6eb99d1892f472872, 0x59e1fdf817b8136f7f41719e50541f06d8964230d1b512092950fdaae6c5a296, 0x38cc8b14c623288922ff7e9218c2160d000787e6120739f34faf79addd291c7d, 0x24dc7d4d9a0a2d2631987c52040f439cc667fef830482e19e57fe03a8c9e31b4, 0x68f2d4faaae8f419a313f992eca3fceb834326e3dad9e541cf8bc4d6d805b383, 0x24d0e3441deb961c14329ed9120451b64911b2175e9fbe988b79215840947e77, 0x1227a5378e6d4bfc4825df7ff9061fbe2d1484a1d74e37807f9d74eaaa708701, 0x46de5c94059d6046a8ab1675159e4ca87c8794c7b21ae806ae08fe068478ccd3, 0x47f7fb9a80b2c6d76e869b4aacf8f5d99ebb57da264b5daec582ac2588d401d7, 0x1405aa47588f8e87ae57c6da7ef050ca0eb4880bd6a1c6be0c73ee3e31c1647b, 0x42531084025ce1fca8c5294533c9a2322445e63d3365c4fe65b63d3c5dd04f9b, 0x2c51429395d2a2915e3621d6caf8faf52f65d85c6d34c326944ceabbba09e2a0, 0x6a950cc9d2d4ee4c643eadd190879aaae511bd1db6c3e551066687a43e56fb1e, 0x7312deb32b1733b9d3796579d8defecb33e4c959f88e3ec512f2b4572cb17edd, 0x63ab040683572e776846282375094510dc469461892be0da49710f9acf8127c1, 0x40c752ea8b89eb3d90217a020e0ba2569c5b21c72bdb7934f10f11c7666c6565, 0x2b015a1d0ff0692cbb05e530e7346e6366f1f79146f2eb7a23e6aa039a7d940a, 0x12108011c9eaf1959b6fa6f2a774a0d6fa4dd4285a238c2e8d225eea15f337de, 0x15f3a8988d1a9111220ce3204a522d1ce1744328c35e91b3741429cce7b16c49, 0x3edaeb607fa6266818c5ff0417c304e04f9e728c040372af01c473c3abbd2613, 0x3a206e9cc583ac14857d91584373f2c5ff695efa2c2ebd2b4cd8eaaa12210d3b, 0x3969df112d64fd5bc643fd10412e473040d7e34f6594962aea698b70c09d346, 0x184730e3af5bac4fdab571de998d8d07cf31c5b88f1f0c5909dce5af99cbb71c, 0x6807151a5e2a97e482751826e4cef0ae0c8fb2226685476a4ff1fa72c2baa36e, 0x22b25ce8260e408d92c01c1e2001fc47d785884f830cc0708f672170c4e81fb5, 0x2339ceeda644ffe97585cc1e5068817e3bd1532a44403fe27ea46f56987931a4, 0x4a908e5d5dbbbfadd64768b496e4ff107be0ee783bec20b15c5b2d527524e646, 0x59415fc1076faa32afb904c8a8e21dd1dcc8574e092c88db1ee99fc57a92a8fd, 0x34540683cabec287b42123376bfcf6a6a085d59a0bdefa0858a07bbdc0bd5ab7, 0x67a90ff36d3865f90789ed2aff73c4aaf916afa2597ec597df1da4872bfe1950, 0x50d473257bedc8107b105179ecee84e775d5a6fdd711b6f5ecf7ba52f53a8701, 0x6f2d7934ba1d09b0c035a85a3d7daa6f0ad67fa40cff78db2612f09674970a78, 0x608b6e887ec70bcecfcf5a83d245e4e683aafb443b797e44ae44de32ce25cfea, 0x1d0ca45027e29f4189421941a0079c9ff49b3cabc3fd30058c53801cdd517c12, 0x68d3449a5d5dd3286cdf5d44b2a289e21d0bd62f196d37c04faf7e02747590a6, 0x532037da72eb929e7e1e20841e3ca1e6b0f537120e4ecbe345f850666a020fe2, 0x5376374355cadb143c5726ac86063500c803e8f8d18751fc65f5021a59ed5271, 0x1698b68582ead96149c5dc263dcdf953cfe7e4c32cbb25c5e660b67dad5f845c, 0xf58f81306dd80245a48f4e243502550631804fd7d20c57bfb311d4e8fe99572, 0xd7cb668e4d37973d2492e3cc3dbd5be519013e5bdacc679b3de1e6466c9f238, 0x3c7be601b4b14547270a7ae3c23ef2bf98b9523b3468d4657975e9e2a0851654, 0x4a9fe8deb7c709ea1d6b5e60adc82c40db58950b75f8d2ebdb0b4c951b740154, 0x72b6d487b0364ad205746994c4671a0b72884e41d145849c9bcd8bcbab3781e9, 0x4123c9123ba5648de1bacce216edf7d299d28c9b6b2cf1368999a2c59bd8ba41, 0x8555d575a0f003b4cbc2d19966bc8b999c560cc962b94c9d5b4b70c2120c421, 0x3c757aac751af3983a2f974c01ff4493a66b86fd286a5f20dc71fdf120f11e44, 0x5c720ce3b4deadff234b07f7589f739bcf97f3d8562065b57a986c470287c87d, 0x14c58e5e3508b29cc4728051131e600438c7480242e8b42bc41a35902fc3e994, 0x2cc2c877a737196bdaa52d33f55a682eecdf57487c3a11a40315c27f64b5a988, 0x1f4c7cbd8048ddd463fa0035c9c19f5ed39b1c08455e0a1ff9700ae3ee92e152, 0x3da86f547728b809bb43c618d1228f8e54cb79b10dcf3a3d778503bd5ab0f866, 0x1ba0d26db982c891c43bcfa3066274aaf72c8b4ac4704ad7f13088d04f9f334d, 0x2381b9d1c3984fe51f2415a4f2a3e51347814c3a6bcafec9b7fece0a2b3801d0, 0x12fdb3aac4ef228030d0c6ec530d1fc1e5b848aa136ec788c7a07ab1ce8a59c1, 0x62397a625a1e3ab1dd7a18b1378528f97ee1c9b1d651b9414e5367f80ccdf33a, 0x6d6d58b2cc8d8ad4254435313015edb762ab2e9c4ff6d1cb1b07e7d69985db33, 0x54b164ff69ce6eb6b46eb65d089f122f445b8b546c3ad1b4186ccfe1d5120ac5, 0x60cba8fe384f4eb46a4ee2bd0d2879ffa3f9d91a196c4b5be3f6abafb07fafd5, 0x183ba724d78a347f729edcf8f4c5caed38896120633b3e966200757e2bcbb5e7, 0x2296304d6a3a452ad601f86f27c431809ecb602b469c5f555759921bc08ac4c1, 0x60f89b41aea4a6db964e8b762e8b386cfd72cd7d83da1610b39fea0a27bee4b5, 0x58e5e3c18e88d271ade14bc14aa6415ba481fe6cef246654105ae11024e3c6f2, 0x5d4c059cea46eb78bbd03aa27b93b32bfe29baacb04f51eb66cd0a230e733ec0, 0x4435f050c295bc9b05264b83e44e51cb2af02aec229aa5b9e6c254e4219fbd1b, 0xea6ce1ccc2263aa629e4f9026c543b8e3ad89e6914a355da5f92a08cbaac02b, 0x2db09dfc0cbbfb5409fdadbe57a606959e8c4eb0b63ad53c305d512f9b73d07, 0x9558469248c2be468d5dcc27e1148ad742e8d0cd85359e165049fbe62a282ff, 0x4e06a722c04ad91260dea4e25b614e62a53e5c0070c16457e824b9ed43175ba4, 0x2e5fd3928d9ab03cad59fd9c41680a5bfc4a28a01515be183b4890ee0f086d4f, 0x57e3b76057d2de2b3628a0e20a50906dcea812b86ba12b5fef89e8c9fc1d099d, 0x15f84ae05014b7563a78d1b0f4a54d96b551b5d2e35b98ff9ada73ebc87ba50f, 0x4233104a58dbbfcc92ad3e0ee61020c468b55b39bfc3b46bccb2f8d3ec8f88cc, 0x554dba2604102a9683992e447e8b102cc3352c83f5c9fde21db5cb4e9d65ea91, 0x34af4f3d833b22cca3efbda0ae083f90138d25d51424bd9ab911e4a80176f377, 0x512ba60a2307939f27fb7c25758d621c299dbd4744845de389a6dbcebe2c6d78, 0x3527817279cd5543b385f75fafb01b69db013b58b7f591b22deb5e42b8b72032, 0x29ad60a86b7e187acc9dd53cf3af992d723881df97d356ab0fc73f3318f00370, 0x65e1f28fde8cc0ddddcf77ccae45da0d1952fa366fc3a3654533736d9b0e5020, 0x255aaffeb4fbff05d5fa19e5c4e5f1a5e709c798b67289a816c14dda659bb8a2, 0x32b85d493b371c86451c6d92d1db32c776012c01b50ee09a3ab7a228fd17255d, 0x4e8cf36c4da49ff631724e6f7b666a22dd85db0c65603bb37c354cd14b074742, 0x1871a65e63e079d71ae3dc01d6c091da78a200201dafe0df90bb7eda9fb252cf, 0xa49c2912431c68121cce014144922ee93f0f8fb3a6eebc1c16ee09e7308557d, 0x450c96726b1ba653e7705672b5c0494a9e459ba925d27c8a826b6e9e7a45fc1b, 0x6e2c7567474e699c11f683aba457c3f3fe5aca1a366ab4c397fe22191f13afb4, 0x392e3aedf93b142cbcdf399e005e050018a24f0cbc79339f41d09dc96393150, 0x20c1c35d4a389ccd0c8944f7ca5016ee5cc80de7de842a48f29c4cb583926425, 0x10695dbaea97e3758bf7c83bb80327b26aee0fcd24f1b79fc81950839d14eb79, 0x42f083e8cadfb6c4042371735ee13f83303effd46fa69595a09866dcee8f16ea, 0x6ba8cb36f72eb39b8d2b72cb5e0409696d1b1a5020717aad8d90a7a7d5c2092d, 0x173e584821630503a0e60a74695b12a41c515239b0231992057c6cdb4c58fbc8, 0x4bb7c9d4330bd56eb79321006576dc03a2e324958223cc39e9b2bc51e928a2f9, 0x730649029a03ba2b6f80d7f8287ed17734252eecc3bc961a77884b283af1de20, 0x366ea5c44820b6dcc36b4f2110005c9eaa05d7f8bf336b4d1e7dc5d9fc8c5a2f, 0x5ac599c4e60e4de6a824d55245b662f531ef910b28746488c0fe73c63619a6a4, 0x53a773927681e3ce9f710eed9cec972c875239a43e11bf38ccd9e77d2884244a, 0x37cba569390d6fded828d83a5284f108f470961bdbfe20be337d2a98a20a6567, 0x44fd7ea442f95973976610e807eaee85ef5ad47db378dde7d2d43b4ccdf3a16d, 0x2dd3e64e11788095d07730013c4bea44445a621fcc572e2224e91b4db7783146, 0x44624f812eb1b487b64d55362fa10ad7e82a692a4d3e74e549d9e6c0afa9867e, 0x5f64194b66ef30aaaf4f1c8e18bcc4891dbd808c2e5e32baf676415cbf6b7e06, 0x540ac6f028cf128c4455cccb8fad0bce546af9276d9a71d1847eb3a54748ae39, 0x4a80491f20c02bfd79defdad3c379f9fafc633140897e420cb63bb940e8664dd, 0x57de2441e4d205bd63f10de992e3163c373eb01b948a49c1964d6eef528a8d9a, 0x24981187d32c4506bb8bb1b9bd1de33353b2c34f087ccf3a9bd9c045b968561b, 0x6bb651e858991c516dd8227ac6f1de437e294b17e2a7e8093ec7a650bce49072, 0x4056abba555c23b1f82315f5898167daf1bdcbf6114915212a00ed9232f7d0d4, 0x4445db5c0cf835fae9eb8d7eae3d6c7e468b4b71bc20619084a2520507a16bce, 0x63bcf7a1d1a4e5bd3ded500a92f0310adc17217224160c574af982a54b7d3952, 0x357c8e02388f5b1d83086b02c5d0659a5a74cf3aa97c5e7f662ac91efc8b48bd, 0x14cead05973fff0f002dfd3095dc5085b248b6925a9b2c113d98845d39213d8, 0x6883d5c5eb7d2784f889b76cfec32f5feb3ae95f105a1f8f108d5decb6b078c4, 0x2a4f64699056ca79f8174c011bb7722a727a3fee35235ce24bdf98f30d8391f6, 0x3a09def7818b43c7b7f175160a1f1dc68fd0b2c3ba5057a68bc30ac86b635cee, 0x398ff1709d62e1e1f219e4d034949a31bcc6181412788349c7b35cc6b8801316, 0x200981388b0789d817694cdffcb7b4b9f770c4545fbf6b52f7a1c816cfc59f40, 0x3f97af614d0d416c2940ead6b2877ab6e0ebbea8a02af8111245e04dec703f70, 0x714b3d6be93dfe44a9b635d97db9ccf3a383fc8fd41cd14987065b28525badb, 0x167675bdc97e50a836f7db7d0507c1d8ecbe6507bb7ef763428f989ba7b88f26, 0x4707545ba16f4ebf58c49f90da8a501eada7fda0717edf778c259404ab0f7730, 0x67c1feac92d257fb30d9635855a9e084cad4174c1ac0d7dfa43612eb56283b6, 0x3d8021c37d2b1b0b49344c44d71b28048488d8611458a0d5aa18b89e7c09c0f5, 0x442bf9031cb31818823790b21d77116416f0e549e8bcc460cb2c0c3345b0c2eb, 0x47a3f1893a22ab5737a4813001cea50bd36753cd8d9b40ece2d4538846c29ad3, 0xfd68fe2c88132455d6d6edd708345188ca3cd2d1229c0933ad5f5557548f8c1, 0x6d0894182c54875285e53aee6be8fcd2846ae09db76ea5d934ac8f9c76d72538, 0x5c982e9f48437738122cff445114e0eb0af39f619dfd2751e6068e693182054, 0x18e3fba90a5c513fd9b67ae6fee4b9cb862d3104b04a6ba9b820a84b8816d691, 0x364f4a67f24495d704826d2db066a78e4a95030cb058310cba29086bc968debe, 0x15ff8b24cc303eb7dc423e74973936c0aa8baa1078f4ac9480bcb8435b6a0574, 0x2f1a6a8a2ee60261fe380eb9eca8f3b1f245a8b5be225eaff6d9498626603fee, 0x5d22d7ee72e8a91cb1cd3ef055c93ec450984658f6a1e09defe54efe13643221, 0x304ee6f5be00626dc0b73dbe78f2c9ab94a749c06e115c5f185740f1855f57c1, 0xff73f3c5165d2e563ba9359deda0e264b8263a281997aaed3c9c92e2baaa3fe, 0x87cfc3306b51609f84a71c2bf2f685cd2af5614e613df856eeece5cc2f3d904, 0x2fef67264ccf43c3a9dc65bb7a5bb899987a8726401a0f4101d6c2b387161087, 0x3aff752f8298fd5fa11d9312fb272463f74f06fb03a49dba67c8361292b8c024, 0x3f6bb33bf09aa2db89ce2060802c86f0f733b98b838feff888a9b73cee39ed03, 0x20fc878042c69591590cd74da8228a495b131bd02ea267ff58c6756981a6c41b, 0x2645f5b15f99f92975386bd59f4d581d6b32c8f8b706880e896bdfb68913ad93, 0x38376dbfa0532d88a03274c71fa0bcbb9d0cb2cb9dee65d2c822ad08c0d7f3ed, 0x3cbcf102c7b142cb5ba754822f77081a5462062e3fe64bc7dad5e1d3c9021f40, 0x272e0ab9b0ffcd7af3cf703de9683b5ef81876dcdd636b42948350b22a0f2ce0, 0x3ec4ef662e1b2e8e657f8a78a0f2eefdbb41a8a5560bf0319a6ca2f1f9aff309, 0xc94212678f0e124f062a6835822e76abe82af6625ceecb300fe412f76114187, 0x5e88f5511b2ff9e40686a778b4f30c4017fc5c39879ab59ce7b3a672d7b2e1e8, 0x252abd8297934f0ae7e0c7b263d59196a3a1df41c9e7fa5eb064d06728d4b918, 0x3a9e5879b8788c95079813c8d13e0ca7a5f6cebd2e3f88cec2c86e66696b7450, 0x2cc82733b5306959cfc399899d2dc88a6d1c239996978e6f40cd6a07571cdb8f, 0x6ec6001c75ccd12574953c694adc5be6687a04d338c346e554324ad0650f0991, 0x37a9b61f2a309df391e826c9d75b41f5a8924b2ea58e7bb38cca93fa03a17dbf, 0x6275647537a6937d6a15df4ec1cb53323bd7a5525c217f88ed68ec97215541a0, 0xcea950a99546721833ac358e04480160cc38694a6a59b8038363418ab96040f, 0x23ecce7caf0fab590fdb76e935e9ae9af33753759daebf2af8a7582c02d6a42f, 0x396b283e2bd5fc07dddf9bbab91b885f6ded0527f761a07cc5a21f7fd12fe194, 0x3a9ad524c28a2b8cd44d18f2dfb4f182e45b49658185b69041504aaf93f6e730, 0x6b2f6b7714b1af53858f8c4cabfdfc532c77883b550afae35b1f29910084f798, 0x32e20ca5264b9c4e6026a47c926fadec2673cdd38e6e755fb557b1f4e83857d, 0x44bdcae9b70dced50106171e7d205f1466f0ea2fac696093f3557fda884eccf2, 0x32127aed4e81135f2cb2f65c2a5e3642c3b1c3fd3297d21956d041c0c6922860, 0x62a2d791d34c5f8ee802fff9b5e3c5130b1da3c7bc2963cdcf4b3da066b22826, 0x2a786e487f06fe63cfa8cc3f04c940c02859f2efd533fe3b6d9257245d2c35df, 0x513035644af0581c4dbeaa99ed5bbd3fe1857f7bee6b6b021b48983d2104d520, 0x34569f583c6f169cd1c24eddb320a6f662583f81ab94935d178c5876d5ab9e60, 0x6a515df8430e4e2f5699a756ad930f1dd6dfb8a87fc95e0e1d99e34c9a07a03, 0x5e10a3ba997bab5fe2a1d59c6dea09f4e68b4f349cad03996b71c0203956d31d, 0x39810235b7ac822f6916093849f092851818935a9070623068b708bbd42b1553, 0x65a234a8fc48b171fd62aa700d870e5ca7b1b012177edf92c322b7131171484f, 0x5006ebd24ebc3f634db63bac1a7f82f17e77aa5df214097c2302827ef32daddb, 0x2129322e6a0fc4b44d7603bcd9ce4fb6cfc672f1f5ac2383672c64cc09e006e6, 0xedbeeec168c7493f9fb8d16ad1df885a67ab2f555863dc36695919d043597c, 0x3960f9808bad001e30595479a6d7597ffd1aaffa6de70aa920f3b313e73e2b78, 0x5be54ef47d8dd78fac1780f3485b33e4d82d044ca15ab5a5cc8ff2ba74c2578, 0x3eec8a856299bd0e501b7a3d3aafa3c11d7d3360daddadebcc78e00decfea466, 0x18733327575b11e4a95f5aea0a4dccaeca3baf7a0d4636ae26de2b98f3ec4281, 0x57df57edcc95cd3f5c619f484b634c57445b614e8ef053b399026c4b0b1f36b9, 0x480f77fdbeb5a11c8b6a087b1fb11e15f8673b3b3974e6a893360649596d4036, 0x7436fa799b44c998488ff39a017e9e075e9ff8b65e8fe5538b6b1de9301cb98, 0x22d0338df9541e17a3ac6bdbcca416f2f0dabfa71b7b3fa6779f77116ed3c79f, 0x2d2565fdfefc538ef6fcbefe922a57874a53d3a5b076bbd1b9198613dce5113, 0x6d9cc7054b54e7f6df9a7a40692593e291d3db3b0654cce1eb4ea0a0cf20375b, 0x28322017d86ff56d6292ae86c20dbe8434a464c94a9f2ff5d6092af720a0b4ea, 0x1940e4230cda9f3e2140df557b87f186c68814922280f42fd836f905231316b9, 0x73a10e4c610e0e790cebaff5162776d6d4496d05089a1a3589e227b5c983a94a, 0x70ee01ea2373c1a0aecd69f86423628d7ff1f4559fedaf6614964fc59807d73f, 0x6c42e4f688c8bc5832db1e3989c5a204a14ca8999d012367c816ebe0ce3c729d, 0x60cc001441703f8434a2eb28cdfe5913e1084852e1bafdf0381cf340f1873e80, 0x5f141e392b6f914651afcf3d2007bd9f56d7c87f23e4dc057e6be054d8f6547d, 0x3f6703296db3142ab8f6ccbc118abc2506d1317140132023fc89b3e0f828cbf3, 0x6e65f07549ce85e5cf79bc7223e990ae25e0e9a712ad1e03b6a69c9d19fe325f, 0x6078d7a137969c7466b57e2b336b800e8e2bb5cfd43fe0d9d87039ea080b7fdd, 0x373e5eef21af3aa942f69e1dab7c8cadbd1ee945f65915c6b0b4e6ecbf52e3b4, 0x1dad910bfe3972bc8acc6a537c8cf21a5eeda7c3efb85839699435e8f52b47df, 0x5360881da83fd973f14812d5c02df2fe546ce1d65d2f4f0598a3fb89345a70e0, 0x47ee8ff5f05ff84a878fa4ab6fadc82f4868690df2ed31198e6c520e05a228e9, 0x49550221c87b95be76f04f7ee58ff270ca1fa386622f7a3a36b4434f3aa00c87, 0x48f62f73fafa69e7983892160b0b6db6d3628a9cc8a8a3802d1ee596dee9d9d9, 0x53507fc3f87b38369a6cfec5ee1a8bfbec48cea50dff2ab10a333008a8e4f792, 0x705bcec5f608f248010fb9b5b3f8a84684e7b33dab62d510048328e7a60fc833, 0x3d15161449f5f4ce2857a54fbdafe8fba67d564563c28e73ce76f68756e5f6f, 0x748e23e49f560f4f5f469e20b099eb17e8c7924f23eac06a0004c78219580b5, 0x10c114e87d8c3b18883384a142f00af5d7dcfb693c694559297cbdbe24cd5607, 0x37b9bc28daebf6cd72b46a8ee3b41edfb440f32aa1f75520a1f45dff88af6b55, 0x52c5b2f0a4481d056d71ba3145274ac30acbd6b9208f06eb4e67da5fa3912989, 0x21e1d37f410af00028583b77fec80a9099b04575286bb9f82c946321ed069bd3, 0x66844db0a456f6a7367035316ff36152bcaf7b3f4032c6fe93a43ff466539e33, 0xb280b8ec16d06f20335a523e6dab82d22655d0f8e6b5900a15c2e9fdb61879c, 0x3745ccc82092a215bf0fd4815a8bdccf9990786772f8c4eb2e521525595b9c0, 0x4cfb4e90fb65a14f0254acaa887a3d59a43a1d3ac63f93d58a3712cf4ebd9e05, 0x5c38513cc200bdb768d13042e599410dd9531c3106824750f63ea56539652b38, 0x40b818688054ba9e07aaabc41209afabda8864efe00b8fcf2e99faf12a6430aa, 0x27268d5677286e2d820fbeb9662d57bc563d13e0c589312b3289a7bd92d18dac, 0x33450d482641e40f37e5a96d13fc950a4208289327c88b9dcdc59846037c3981, 0x4f7f5aa047460ecfe231dd6ca9b98223786dad84ef798c0a6868fffa9f21516b, 0x4a70b9612c20950bae79a99730d8db1f111b481c3d892ab866ced21ef493073e, 0x64b5b8e02e1e492e2ae1d3c62f056ef8c76b5133187487d96ff801b6cde25c04, 0x7c585fa91857f7802a78cd45705d56d8bf720d20d9759381db1a80edc6dba1d, 0x6cb78d73706090182fe176d3f3846d355833b1b6942a4f281b1b8df6190f5404, 0x64d7f22f73ff790a18cfc28fba2ea76834e0218e6c43b893222af794e15cc2d7, 0x6175b78027a3cb56254dd2c0d9d10f436bb4474c1acd95639d8e815c98953c53, 0x226e9bd7f9018f978d05ea54ee8cc13ef0006dff893eb350f5fc537635450b27, 0x7267c65ed2d8bb65f96f2736e4cf22ea4ec01c72b8822984ab73c9f6169cd85d, 0x20db8e2ffcd785b74cfd360e4df01f3593fdd70ec245310840d348e9bccf4096, 0x140b0bb10a8e9096937f434f0a96548bf54071a22ca50925a7b434d4e4f6c398, 0x64fdc1919ebf976586a9d3f1465a9968a9177cc47a6925b0e665350c5469e1fb, 0x315dd5b8ad12ec26ca6b48f3c495cc57d732eaeef347980f6f9367c62c42e108, 0x2d8f9ce1c0de9759230fb86ba5f89178c4115fb67e772d28a37b588b886ba25d, 0x35ccc22fadab49b841991ca67b5856809e2fe8efe22934b9094ba2a9f9001a0, 0x1dbf5a485efeb4c210a5e1605a3f678773bb44d9a0009d14035598bc3ab87c80, 0x17ed5e9465f9e7a08bf578cded15dd9c6fe2710617ffa9ca2385df462182afa, 0x41846cefbf21be4731be18527698b48d1862c21b5392862a09466ff5ee5d34dd, 0x1d4c431050ea604ff20132dede35811f59cfa24b6dd10c430245a538c11276d4, 0x6e470a56dbe8fd96a09ee798401fa52727a8b63b78c27c51920553a333e10208, 0x1a970b383f2af6b8e697b225bf3923e1a3468ea65253be549bad2ff67d62e5b0, 0x2d38f824143ee1ed665c8a3c6c53ae4625297560b0b4d36a138592667166d0b5, 0x80641d7b5cba0da067dec0d833087bcd6b522faa033a17bc4e3f21cd3a7c46e, 0x1f80124fec5e2b99bf750bd2651422032fee1b033e970cf6dde6528f5464be51, 0x52d614bea18abb2b0b69c5dbce97967a586eca5477b56ced12819616f3318dc, 0x4df3942217702110387bf57a958cf0be09e48491ee4a84b54cf469e2dc3b72f8, 0x6d216435261493660c50a4e43326bd59d5e6d80a4ecab230a128ac99e8be7ab5, 0x17e17c3070c8e9d5c4277ffa1ab3c9b07a19abc4b616e371eacf8d8fff43157f, 0x498bd88b7bfcf5bade736e0c610e539d52143cb41a51fc9b7d669aa6467081d, 0x72e20ccc7d56913406c09a5d20dbd7671a4ad1f23bd67c7d693641ab7516a37a, 0x2fa11bc0c368a6b05642eb06f19cc712d13f3847f8dca1e106533a73024ecae1, 0x1ed8a7e183068b80427595acc5aca5e7bb7927016e6c24aa8d34a9db224aff48, 0x615a5e479776991e73b6fc45c47466f00d712f508712826d5759c7daf64d365, 0x3e682f39df4f47c08b2ff63e70cc4f7415bb3fd4fe0beb16ce44d3660caec6a1, 0x642431c87d2daaa618f16b48bf7b78fc0f0a5cda058912c8fc7c5eb69c30f924, 0x2806850f8c6320e3cc4222a292a69f7c55ad806626dec292e4dcab629f8ddd9, 0x37ef78e61288aa41ba5fa5cc1c93d360e346c4a8c37afcf2dac978c3d2b0d47f, 0x6136076293b5c370715cf5c55f177a1ffa0b75c51620b7eda1aaf12d37b05bb9, 0x46e5a2baadc023f44f6ec61d27848d9f57b0214fa55ad4143ece6c2ec0af713d, 0x6d534136d01b55d98d6f9a40b4a474270162097dfcaf882fe28fa75df27d49b6, 0x13d0a8cefe5511802f190549276db20f3a53b31c31b2c9fc7a0feb39a9d5c610, 0x323c1e0f7bfea32349851ae4548f94c2775cfb9b65e15f6efb682df859ffda41, 0x1fec0ab4f9a50492fca4f00044ebc2554d9d09a6a44f5045958a6b5544479340, 0x1a654a65446c36e5b496efba3aa4654958b34a9c63f96b100ca517c6ab775c28, 0x25f7fc3fc2f09c0d330e7e3ff2eb7ecb0cff722dc8a7bdc7766cdf253cc01eb1, 0x65bee8ce21b84f4151bfae6e9436702fde7ad9acafa5d1e83745bee839a48e00, 0x7264922e94b548a57060a3ff7df36cb8435087a48c486c06e9588928dcc5165e, 0x128032bb75eee8f853418bb57a55462056638133a42efbb4000147502e40d4bc, 0x54fada75fa68dd7874e681eaa409e07a0577796d2f11f7869e7bde79f15eb54a, 0x201ce6937a8916d387ac563171b34fb25d4bf2f1f0f01e725ab1d89578e4210c, 0x559cf21befc56153152417ecb5a8ab94118bd9979de5d6da4044b3c8208812e6, 0x6c8f382f52abc0234d1c9d9ccd0281240a59895c9bb12640b91bd770ca647204, 0x6e7227b2a30663f79bdf1f67942d84eaeb1164b0f472cda7a2b1b7facf2bc649, 0xa9fd9ea7c93b2ca0b0f67518be6e7a65b1b944a9d1b1c8d59dc02e1386e7373, 0x306c679d75209e9135c27dc4d6d2e8599db3d907aeb9b3aa76f8a5589532bbb6, 0x224dabd86ffd79c6af7d7e78ea3efafc5e2fbd8742be359e4269e0c35e74d342, 0x6e6432b5603e4f997771b5c45f2ff5f6ccfde7cad8897a5836b0583275107c1a, 0x67e59f5d67b9735fe57a3dcf4ca97dc083530bc2ea69fb3d40123c73d7cd599d, 0x6e76505bee583e149c720872fdc7fbcc8f1dd546dc394e1c865650f1b775eb3b, 0x5e444b9d3eb3ee47adab0347c87104c3a2bcc52597c0ee8f91a3961fad46c33d, 0x1e0f0199e7e2800dc54d55e2cbe4b8cf519a8c2bf4b49fd787daff97792bbf92, 0x67ca2236a477fdcd002fc06d38e4725b0ca69d7ac3efa0cd73f61e0a546f863d, 0x231b8c3da9a9d831ff72b69911267bf5f00fe6adcd1f3f645fb56ba756ba03ee, 0x46f3c4b03beaf8e0aa73e975d9c9f15e4d27484134fdfc9dc751bea9ae72319c, 0xd7068ac2a9295ec7b5e97477dc94d11666cf8d055f1ac1a591f95692916b9b3, 0x3a65c0e9646523eace2d4071ea1c9ce62f9cfc938cfef4c384a17b5667de3441, 0x4ba197f63f5b952c8e9858ce594531c84dbbe50f880c40b4d16b5ce07548d31e, 0x175dafde3471ce57bc6e220387d88b8367ce6ffeb7b83ee6b34c82d9bb4e81b6, 0x42e6c8883ab42625e118261b22934c6178fc9b28d73a195caf19720d6cb5b452, 0x19b17770c5d026a0399fad546926f58a44be63b272a7f863cd213c289395da44, 0x5c78c705d70e5831a106ab3f59c51206af939a64c43d62997f4acca70269d51c, 0xc53ddb4225b939df6eab5f30a22f8ad8e6b9c6a2c1725ef97c42821f7abab89, 0x1854efeac97836aff98e5131acf23d82ff44166813fc62878c59d501b5d49c5d, 0x5f1982dbf7259574ab9f2da79900c4df0f0a5720b6a2c9895b98c25308f1eb4e, 0x6d729cc8dc72c99e7e89ba6f60558d4e79b3099534321dd9d67247d55edb8425, 0x4f97beb6f2be0a60a4574ebf8df5e4962a81406973bfa7049587e15267e259aa, 0x6ef240c3c6a04d782bd968107fcb17e18b70cdcd74614e34bda1a3b6ae2ad89b, 0x21bc965f7c86d33bd0863402ebbf3d4f44e4a361cceb75f021b6da56587c7a9, 0x1f4994e84abfb9b6b72c6e32d0fc96e2295f8bf69802f95500609673c43c8166, 0x5015c9e910bc6d5b5874819b3e3bcf641a190fa213c39c51d14335886801d364, 0xdac72743d07bf3ebb6cec10341a068d24d86579aa5fa03635fe69754880f32, 0x3416da0fb96e59a8bd1de0f72cde604720a1891bc39c4d96e60794056c31ba03, 0x650e71a5f2469aefcd9bf33b5ab67111d2b84c8606ba2a581c1e78fee172190f, 0x3eb75d0002f62f09281e2a8b24c9eece6a9905a4f866841aa8e88d4c889ec09b, 0x2d75e970ad2d537b810c2e2ecbe5fb6e90ff43be4a58ac63a7e228cbf78cd6d0, 0x3e3e41880fb6aa08a12c47e35a23f026ddaa0724694599165cf2605c4ac547f8, 0x19a63d783c3548bca23f9659d78483df6847e2ab2373841d0eff0bd9311ed8ba, 0x30cc39321de8641f80a6682c8725e198d7efbd1c3362fa7e448493d1690a64c8, 0x231fd2b11090327b723ae58d3c806aae3e0c3524fbec5d3d981eae1295557945, 0x2c424ae5ff9dc0cfdd89783a881850cb31964d3bebaa955826171a12aa5e78c5, 0x274ec3df73fb25510bd43c32ca87f8df022703efbc6ee47c709bfaa573952228, 0x546a1dac973842218f1e4616b24adfe1c39920f2fe4ff9833585681a64754d4b, 0xedc63cdee0eeef4063760669d49c503e628a308d52b2473925953e101052679, 0x5d76d806582b9d6137392d223010c1cb23b23f7e1cc6df854fa7ea897d268506, 0x518485ad492a583a008d9a904e04e9edb1d46f4b767b31fe37acd1d86711324d, 0x6822b473fcb375782f05bf1fe937688f2e06ee188d8cc745ef86668de8894120, 0x337e3d69ca05e9ba2d09f7c4361461172454e00a596483bd288f658d02767c93, 0x25a95d39fdf57764a522f58f13e346383a48d1536c9530829362e55ce8d17cdb, 0x5cf5469d97f59cdc9761d836cd5b99b27ea3e6f0b6c8be7c045df850909acc11, 0x415c4f68e6e85c42a4cdefb62c3d8a1d434e1561f0205f774633b7facebc3795, 0x5a1d8768faa68d1daa95c3fd1470e62c25685ef0c590bed09331741273848c56, 0xa26576260f2be241b28c46e6a0f09fdebb7898b3d6024f946da295f4df55e40, 0x3a7ad06b0a9619df101558a8312168d4bcd7f77f1a33f51e3e85de5aa33f5124, 0x1840522c90a4f8814ff360543556abd85390532ba32c8c87c3372950f0f9bd0c, 0x35dd1b0b3a96aaca16dca7e98e6051c4f4c79d9152d8a66e1a6642ba953f5892, 0x59e4762bf4a57e2236913aca33f1a570e300cb2c98675ba70aed9a522ecf2dfb, 0x1ab75dc8b4586fbcf945592e6e24fc7d2b13db4b92ab0fa13da23d5942506ab7, 0xcc25582d3abf82fc03a1b11b88dc761d5b2a983b956b9a4d8209705149d1043, 0x288cbdc07143ae3e42baf9493ae44c3c488f28a2a1dc13390e4a09b5605b57ee, 0x49199f0226c86363882711a1f21e58569b295c64c37d26b78d7f88c0c64c972a, 0x52be5eb8fe90b9dc2c4020c7ec768b51562d006598ea243744014ceb1d56588e, 0x6f8276ad11ca6304f652565d6a51be462edc6d6a4245310e7d0ddcc830ba22d4, 0x691ad58defac06dca5455c30ca45baf05463356b02eebd1c3d18fa7b6a684d3d, 0x473abb1e3585251405a20e8ec5d15767dd971683a78e0c6670daa7d3e80e8237, 0x3fcc5f3aa57c6194399a815d1770dc6dab2e6078e6f33cc908a09de298d7dc40, 0x178c631cc91c0b8cff82d844922284e8591be2290377b9723ddd8e78239e52f6, 0x1b49082a1a4c0a461106f14e055f60b5b9b016ab092b68c344e15353d5b59442, 0x24d9ad5a66dbd5472ae360f0fa8b22ab16247a9ce1bebfc1a3f2205742c89459, 0x2fb0050725b110cb9c6f2715ad3a4dc4f00bb1eba2579c1096e793eb32b00506, 0x5827142e8e2c2a6d5f1a0342b4281b83c80c93fcd20e2844feb297a1b5aadc23, 0x434e8c2d914c2cbe087857e9269b9042741036bc8e1ccf7e12ef599a459aaa55, 0x23bb034b2b7a2ffda7c595a7a3a775fd0ce14499a1a25e040b211a145d29017, 0x5b3366b4d3d4b6e7c0843349d156891c9c07bbfd0eca9c5182f30c72c39bc14b, 0x1ff3d7e44bc7ac830cb1d6b37a0ade7d7ebfce26655d2723f98e3051d9a4f422, 0x57e2086b6cf106749b9845a60450708128eb88595cc6340627b9597240af08a1, 0x28b3a6c4876754901666a3ff849b44278de7dcaa917507cc33840bdded4d301c, 0x5141d310d48fe7f879c0a7669df3201817c2a72c05a2cfb7d44980a136a14578, 0x2f3eb026e58430ce0f52dea14acb547175456981d72070e9c9d0e5a1e2a9c09e, 0x72b2293f6729dc61e7b6dcf76c275212692fb578da97a9e38a7a2be31ede444f, 0x4cffdc9719cc6cc49e14cf7485f108755bef9a5d75851742ef3203b4307f7ff3, 0x2c5a8d9c914e54c4137c6f6d242d8c87855d8f6015bf3e29f60c5dca1a00c29, 0x2255d28e8a7695300fdd85b6df82a81e642df33eb3a400697de9f5f9603f0496, 0x166193696806ba0da91a13b360e7e12fb5465b33205bc3f874f01482e3cab782, 0x1f4d9daac658e756360f3cae51ab45fc79dfaad02a897b37bf9a3875992e0001, 0x3f8d193a7b5935ce36b17ffb710d7d6cf3b62c9c6f29bb34338ee7175612785e, 0x16e1aaa135e9745745ac61bd1374eb1fa7f5092c4fd63482b5c2631d4b4272be, 0x550e7a541f213d7c513c692ba63a4f3c682af9a70445a7cf488dff45ff4b4310, 0x1fcef927c4d5f2902f28f963f3ba45ee99a4e31395dfd9819fb0d1b77fcabfc, 0x4582ecb618624f4b01ce6e0afcccb9b4064064398843b2d35c2652c564916605, 0x8afbcf43052f1d402f9ec8d25e3e61aebdd9624bf54741f27d0a7476108bec6, 0x324e54a9312dd973094db1ea835a723be05769cc8763d8221c9298b84a004160, 0xd283bdc0eb29db4e86f1e56602da9eeb85de2cb94d04a25a81b2d48bb89f23f, 0x5a04f8777e1b6f48614b18d3d7e1c8efccc5590e175d01f08373eebb72844560, 0x2fe97348d913d869aa057f5de2f85f1be1f8e3423aa22a6bf332e2f2832ec488, 0x73c27cc1242636858369489a472909f4984ca877e4053b99623033e6d5c1e142, 0x430ed06c41bd26151dd3c08ba39ac0cbf663e90fb19d019128076ce8805d4715, 0x9ce607d0397bfeb5149f107013a4b4e6f948d42025f3f9f4782bcd27f2ccba, 0x202a949c27491fcc4ed79c5c3b1386cd5bf72e46620c0110aad886d7d4df7006, 0x123b2e8cbe9afb672066fe0effb3b3a461289a49b55abd55de56fb876e29ffa9, 0x3207535a0eb9e7ea834112ab956b64e77c4c9829571a89c9292b44ffde1f5bc3, 0x16d29190f5152ba0315736f847cc9f0e8e2797a2d7206c39a9f257adb53c6412, 0x2fac8361aaa9d96aeeda95ab50e8ac6efbd685138568f1c5ff36ec71b0c6a807, 0x5e56e070c4e5a15cb1719d8b11395d5457ad9044fb8c81e2d269b1d839bdcb1f, 0x531ee0a9ba8d80ebf08f9048a14a30734d156b6c2459322f2a11b04d97eee60f, 0x63f86b39cebcef44189af86e181d0c0b03031c7fd131b9cfec48206d286a73b1, 0x80f14786e2237b7c79653027a4144d7614b032f7eb965677b830a5256879d24, 0xf3ead78f6a176ec3bf579c6ce6d80cfa84efa171e914c84fec14d2db4b5e46d, 0x541e7df234582e92ce3ec25d7758c42cf7f62020bb2f51e6214896663a16ed4f, 0x27c881b70ca070cd831de39a3f416328b9ccaa41e14db8a1118ff0af139205fb, 0x63551e43f2f0db936210ec1048c3b80acbd880945430d618f54523528614a610, 0x6d3671e7879f36ec850ad6a56d936168ab4909e28bf11233d56682279894e5cc, 0x8c749a3b94249dccaf5037a164454898ece0176712f537241f48f681c82c824, 0x6d1720b2f5b7f2bfec50443d50c744d294b0d087688a40b6899d8e12b96c6673, 0x64451c38d75502f247dbc1445cd3c8f3adebc881027c88dda72f3e3d760a697a, 0x19e9e496c380922ce5991638c9366cb3bcd991eb32d094de593799679a282fe9, 0x72dcd5bb6acdbbdcd29315a2a74b4ca9739c3b795ba8ddfa249e0f84fb63ccd, 0xf8bbc32d38f41d2351dbde7971e0739a0bcb0bab21476f537866bfd267a02e1, 0x40ef9342bc3c55d579559d07143af3383b3125154315f7bd999f0ff80c45997b, 0x5e181951a1e066ddf01257e0dee9ee7fe066f798db6c0905d7f5c19792eed3bf, 0x45a907a23ecaf4b31e15a5e05dc692c748c311224572086fc60aab77ae02d17d, 0x47941d8737743ca4abdc149f40e13c161ec22a03f541e6641722cdbc99afe417, 0x193f431782c3c5e2e71e9f00d6a66547a1b3f9c2a35f0834374a9db4442e526c, 0x3d3d84171245ddd60840043b8e0b82ef748e130e3817b363e1f69aa16a998753, 0x106cf41725d87bff4ef939a98164740ff5a95d50baa2696de4e3644da66bfa5e, 0x2f3b9232c284e3b4641790e0b48d39252b34e88ccde94f7a0d466c8b4eeec54d, 0x482bf0f518a7fd0e08cbdf7ea26c6272041cc0cb7dae5e7eea20248a26d1a229, 0x7203ba994c5665e9235fb40f25dc83b0a3d50c1ab36b814d0dc8e3a95c02bdfb, 0x2215265a47ecb0d967f2360e6576c119de64c92c8efc56ecfdcc5f9f28771413, 0x5c441a49af6fcc179f429658f7993f09042d474c6b3f97c82fd213c4f870569f, 0x2d800012c929fb7c69d7c5c2beddfba2b2c1ca099eb9a40423e8227b41bbe73c, 0x3da3dd44718f70f0da82763d7f3a5041e0b9cc5f5838c5dc433270b870e628fa, 0x64541c8e461af51e1db1a9ab72efb9300bb9893705516bea640449133e7492fd, 0x3f58672bb5cec7a37534894f3d65f51af1be6cb5e9aeeb7baa749247d8b4a454, 0x6a1a6dd207d482b85be3f79c8b5c223ea1f72912aa9d153a198507540e5f00d5, 0x34f67cb0ad3c9ee901fcb4c0cffec22cbeec1a8756ca1099762349c8f1234e9c, 0x3993a2ad53fc9b890a46d3fdf47b64485fced3828a7aed5e7fb2baf647c5c81a, 0x49be7c14ca3547a581635436d41c20e40e65a879d66899253487ba85b5216c87, 0x193c397205e68786ad10847ab0660020bb189eeb279e4b779f531dc1a56e933f, 0x399956c02a1f007b44ee453b2ea9faf3b2dea62cc9c8733a875df537555346bb, 0x123324f591d9c904eb11791b4b465694f75d2dcc81e54681e235749dd05ff3f0, 0x2c56636494b10dc817f0adac1e18a52c7f4bf3356f0bce30e3dc5a869a27be, 0x418545ec8d2fe29c72a2da6419fb13abbc2add7061cc46aeead9120068449611, 0x62f8549fe9f8e6d91c3800864468535be22e938d7c3dd5784c095774f390a4fa, 0x18f07b12a4fc36f2d9353e976392e0640dfe9d20b67b98e3ef2f15411893a05b, 0x1a44bbf08e453cf57e532370cf74e3182a2bc50dbcbe3df6fdfcfe0e3db7362c, 0x450a8e3c1d85299652d0576ee5eb5107d2a4e8832b4abecdc044236bc4cb5e9, 0x3962e31f20c6c5bb038d6e3a83a4217bccb08aec475c1d12b5aeb2aaa8ed142b, 0x375d843fb8f37ac87b5248909a01612759daab67c0f2ed6b8cf66754e94c688, 0x34000fa5d877699098e9d04587ee48739b8b317bff16acf6de961393bb03fac0, 0x347c2a44264f09fb58a13028d63dc0fb78616a9eb7692132efb5cd82e0c4d197, 0x40e9fb1882f3b7e08611521b7768c46aa6cc23d80d2533757d8a855fdb6c2a3f, 0x1db2a97b9e780756ca9d1e2fe84f855e0155c6849fc35d9869478c47c5c8222f, 0x3bbcdb1b5bb3887c5cc0ad6240a71465262be88e3f4cf04eae3ff838ef306b2a, 0x49da610a0a0f02c5b0b5e87f2079de023ebf89dccd2516f54db935753328da48, 0x13fa6837810a9dd7c7e5c0fa660bd050587591c96fd1e871901f983cdc24c51e, 0x6a0552e42e236a64d1758e6cdbc6a9d9902d6d52c9d3823c8bc1034e574a2b40, 0x1fc3a886370a91365944be0e7dba15357143151b66dba6cd0965f6d8015dd2a6, 0x4cb3fbf4b98e2108e001d4176d9a8b5eaf2ddfdfb25463b3d8236be11f7e2eaa, 0x1a69562b1169cfc484aa3efe1b5abe17bde589c90c707a4a71f6ac578680c832, 0x411fd5c58589b56b49cfa4a492c064f405e373e6967604b8ac19cc7b8b5e6522, 0x168398e9675988af59fd86689b93b2053b1ea1b9c67a4927c4b9f6f360d2ad2f, 0x312050e760b917f8fe0be92529437c721ec2f9c7eb4b084b030d5525b4d417c6, 0x5a19b6e76a5fad67cca6ad6354c8f62872eef9737389743b8832cc1a5281232f, 0x59bc2ee03c4a1c9c98a01eea53176399f7fb23e7e7c4f7d223dc4f7847fd54be, 0x5c2b7cf5a9f0152cc1886fe2f33fc3825552ee5779801bd17be23dc3dec805c7, 0x4a49935042492685d116040ac3c8ba3f60a8e84553fe82f798fed3f789e53ef2, 0x8b9e36f31252fc03111454b453d329248bc0d34450846751dc58305a6b3b932, 0x350a002beda1f86d2c2b1e02568e4398bf50182d6674b410d6bb23c52bab3813, 0x5184fae4d89a9616ff97c50ce2fdef59daf4179eabcbe2fa88410d55b5957393, 0x333a7e578ceb4f60bbc1da7fc42fe619e9dc50a9f6b3f344e5e354122d368e04, 0x6d99b9ce4086c2a076e1c0ef637351dae69a74fcbae37edc46572b4b8c02af4c, 0x6802f592b4f76f4130ccc06a69b7b5b71a84fd53b317e649bba11ab20cbedbe, 0x11c5f674901f152a1b8a7792247bb61ba33d589db2f4d23567165be757885ef1, 0x105bd8ccfe2c1e40ba072cba46c5850d70df0ec79c9fac868682fbba0e124d8f, 0x41dbf9dee503edc424f50cb070bbced7e90130752a3436b80564dc220ac96f4e, 0x495efebf07df8a81412ed1beb83353881c0243fb4ac1aa6ee661abc5ad4d94e2, 0x1115edfde7102b06f46e0004fd7377a00857d821efb663440ca1c0be62e9ce7a, 0x316a2c693ee68ee39e560120469f3b13c0fe113aa03f2c833475f0f9f90805a3, 0x4fe062310ec8e929a7a89abcbf120154dadfd401f204530978f9ebd5da165038, 0x1df23359ea7220f0f4464d3b1a50b09292ad2ecd57ce316c72792bf08e99c489, 0x4570d24e50caf2be16adfacb2d21ac36a8beb25e1a73b4904f965afd67ed1709, 0x2cd8e5a7cfb168bdbcf65accf6bef3d06a6b0a86b43cce8f9325425e3ae44293, 0x19766c32daa9a1ef72a3dc70bfdf8efa19d19c3834427be17001bb17bb8db505, 0x326d5eb392ea505efddabb56920e067d9a6f0765239654182e84f5fa4823f9f2, 0xcfd194ca0d1311d4ef5ecba7e16423279d6fd34244cc5aceb5acb909eba05bc, 0xc3955d9a6613dfc57441e1541c85c160b93cccad447f8b267efc75df5eed169, 0x6ba9ab94da3eeac1947620e706aada8dd34f4fdece5814e6fb0d55db77049bd0, 0x1ed68f85b4822330b5d796645d15eb922443784e60dbe3048bc3bd3e9ca3676d, 0x3e90fb02d2ae898257e049e0472dd3aea2c58a41a01eaba9aa66bcdb2af5be65, 0x4da7db6f5d02904170439ce2a1e9a5e0cc5dfb4c635a2fa93faf3e6e00632b30, 0x3cdf43377568f0334e47b0fb257a7fb524376db5016241c4949ff180f56c1004, 0x14bc4a74827a067a552fc3b3a13513543c19bf4b174be597971602cf6d99aba3, 0xcf03b251b9bde6d706074fe0231bac1fdf9288b072efc0b4553ee4e2eec8d05, 0x56b5ef43fec9291e48bee862d72e721e93193d79db991bc07d3119060dc60a97, 0x2674d6a5495377ae105bca0771d502d424f150e3c34640ab11d6925c0dc118b6, 0x250b2ad966f8e522d2330f8aa3a72f77e503fb8b48de91f000207aa7397cec2, 0x2764455d9b93aa8042eff2a486b4179ac81faa1e9bfd99d71e1f81383654c6f2, 0xf8b211955360d3acd6f8471186d5cd446b5de4cbe117d4e38ea95f366973d7f, 0x6f5e7b743796444e022a0ba88363a8fba87536bc70827fba71c5ee8be3798bd2, 0x1c49f6e6d6ca911d60cad157c02b443d6ec6756632a5aa945b37da1ef1b4b740, 0x72b2a106d5af0af6cf7d84677dc4349c15789f318833c2c3481284ef2fb4a5b9, 0x322f11e4150ddc4c574adb0bbaafcbd1f98c19b6b4db049c308a5414f7c15087, 0x51216468dcb65aa02cb119d7744665abe7b7a7cd0bec057d5f83736b299f1a0c, 0x26b616b1d1ba3235b6b51cd8795c177cd67f7b962997b4710fc9063c8b5570c9, 0x5ad3c027d3fb74140918f70607046c2b98c1b3b6aa4456dc98c30a11641c0425, 0x66fc73ed5b357c764115cfd46be94790bd1292e79a464bc037ba24edec66c60b, 0x203afab59b21f747e00514da13e611964c1cbafe540be9173d990876323fc12e, 0x5891e8062778989f2f56a8ed2d4dcde45522d4ec8897d74b6180bbd0781f679e, 0x3c4287a2d1dccbac45a3fc729fdd4f3bf9fa96bf658f2d43d3c31e6b778cee16, 0x284684e74080de67ed45a536b6191741b4391fd500a6759f560c26d8bd009e60, 0x2f8f8af08e1aa29807c1c3dec7a5f0302fe52ec718c824b5fe93d8ca46467569, 0x29103d15172cf1d7f7c82176f981b2065324a8838c7bc7bc5674866f7518e8cd, 0x3ef4ce3ffee51688246daee2ad1f11e236f020af6b102c1ffe4413c6b8d1ce06, 0x706605ad672a3bb73d051f9edbdc7103d86ca654bf7a7f683647052a28541bb0, 0x6f0f290843a3db81b9d1ecad9b745cd3636bbb413bb6bb7a6b78da605223597e, 0x635fb192608a892e2e7618b6d117798566b029534a0f3847b01ea492aa1c5be0, 0x59cece0688667826f18f5af48be63e1265912b620e7df8719dacea27a7ea9261, 0x356d5181220976eeaea2c4a7bdbe54e8c4776ced20e30d493a0960db0e7556bd, 0x3b90c8644d5201af91b07900a70c4f35a3ef50b52a8d34e88a5b041adc4aa2df, 0x224a1404d2bf4e974ae86b8f9f1d06f977a945a5600877c013968dfd32580b56, 0xefb606a5998bf9c6cb08ab68310049f27a9f4e7ebe54df84b3dcfe30f369389, 0x440b1b0f3ce0d7644b7e960a3d93b299ccf9abc70106fd8fef0ff638c854a1da, 0x57b3e15621aca07d0339440b50953f1930d35a2a55bb0f3ac599ac8bf749cad7, 0x146a8b64ab6d04b5087ac10d87692a449d492d72c4e39063be1c013631218ada, 0x2ca011b597280d244088fab24d61ddffa78c5de1ee97055bbc5e445ecb8197e5, 0x4a2736ab4259ce04de1462c6c641a7a6307aa71e0dc9b5c784b137d3988aea3c, 0x1bffcc070cd9a50156c652189ee6263471238aa59f91682b0efdf7eb0efef18b, 0x2d48cb0b7c26ec591b0cafd32c541c0710159383737e6a7bd0000196bf3b4524, 0x4bce027987097688ca43ff79446b03683b97473877869a2e2981c8db65a2d2f8, 0x6cd1f8180ccc1bacea2cb2c2fdea83ecf79cb45d899b34a2d48d925f7245a2fe, 0xb5335263768b6d54c7cf6e7f82ed2916ab787f95318706ee3c2b8d6347c7917, 0x18422c40ed163c9d59a7773e047d4a27ecafa6d3f129c64399ccba981dc9a0d, 0x2cde99a19fb6b882c6f8e61e3b8a4cb7d05c0643dfbdfd74bf165ea231d126a8, 0x6c96bf7e49dd7f3d22401e36a1c64f18075748911a3185b6a552a49a3776d169, 0x48da4d153cbc82cf6ad47369af92a732f76a390eb7e0869501f86fd1082434ab, 0x409d6797c6b871616c5c35c2d253fea5677ec31d3bb7152d898118796250b262, 0x69146f97024fc0c66d726ff0288a3b9ed0f54a9e55f40a71109bcc72d223bfee, 0x31226c6ea3c90be689e0bbd55a610768df2f949d4228caf18a96a247646cd693, 0x115869d27b216ebf6c43e797f5c165d8aa4255fe59998f3949dd456f411aab9a, 0x2267c55c75e11ed8fa35952b5c8e697cf10ccf777e116247ab1c20a7cde099ec, 0x449c442459c341295342e6b9fd947140778b055b9eb89b9eace5be5d4f1a79f1, 0x21bd408f1dcfe76517fc9714167d4d0b2fbf486b0811cf544c0192cfd31367fa, 0x195c293735bf53fecc3e5cc8993581dfa7f053263b8d0baf3347df0aec45ab33, 0x4508acfa9e6d5b46caf4175f48cc49e9e945b306f479802a4101c000eb8712bd, 0x52644e2351622f9fcdd47bf69c0f6923bf741db185ac08f4d57ccb76d4144df8, 0x5fab4bed6165c1d69537a8338b5c807b8e97915a596670dfe9d33efa5dabac92, 0x66b994d23d0d32de8f8ac4ae7bf2abe640151cf53d8f35bedcb9b65b1d95be6c, 0x66e2002738cb49b3433ae154497033d3c5f7491ccb25c5dc3910b2e7db4ddb9d, 0x102efdd8aaf6e86a224ab7e83f352eeccc12ce73dc899ee8a815f47212b4ed, 0x5c8b5b9e33158b22957794c7457c341ad585db7d8d47f22de472664834211ce9, 0x3f4cff24db978b0987f60bd639c2d200598614964fe6a1a8b8816440b31f8923, 0x17e2082bc627114dcd307f6f3192121ec9b48966be17437f12365b1e23126054, 0x65392e84468362f9cb464eb86ca741998743cae0b25f58627c4199ce1820f594, 0x60e79429e08390028a458039cb1fbf8443e88d324cf338282a71818e55fdfabe, 0x23f013b99e81d1369671b1192413711ea5eb7034153114052f9860f129f9b0b2, 0x6b6769e4adc40ba2da2ed9ddc8b5e7bc22d5ce39b7db646ce9eaf7fd80fa5d49, 0x285caa0971b22e6d0311553b73a8a7a8b6c1ec0c0175ad5a09ac43cf39823b37, 0x586b3174adade26092269bd38c5845906d0ad4da75f52a4768e8765a42bd2add, 0xe02d916dee0f7637fe9a63f321471c7a0771db29973e2bfaf495d7f41241df9, 0x8813723f13c30c93b2a0e039addfdade663f2bce5d8fdcdfac9092ccb07310d, 0x63e3b228e465862892b861dbc0fac1b938b77ba4fc3ede30db50f648b60b434a, 0x2e47f12ad2cd377ac4d62e05036cfc32c31b3d007143b01b8d11ad37509e373f, 0x72948e3c5c28724ca48ec5e5fe5337f4fe2dda5afc5c882d978ce0f413a81e3f, 0x2a84a97c527a7db561d386b6669492050844110c93f5d4b05c11c286796793d2, 0x1e44b82265ed56b528b0c14f8c5ec99848a441ba24afc7bf9ae12b0dd012cd9, 0x3a377000b810c88c35e9384714d8a4a57ae549b45bcdff83ae1bf14f4e214d17, 0x6b617e635fc7d8ce2da8b4b8ee0e9a8843bedbcaa5494b5beb00636cecedb4e6, 0x51e3090c27b8efd400f8bc9edfa786bbb9735a8b9f728bfae8f2816b759bca11, 0x102c6431c7b94c933026192cf34dcd8565ab3b6ab0f178c21fdbda2bf06727d7, 0x3c0e03f4534836622a26511aae22449a045903c7731a71eef35398a6efac0b35, 0x3769937cf5e2adf4713ea1fdfc339b5fcd6709fcecc04731377c91a7fc9e0d1d, 0x6103c3e5baf227b7da2903e9dfe897ea146bace3884c440d80798027f68f07a7, 0x6e197829fed9c21d4ef11ab16e4972d7592ca7197cbcb3a82fe95905efc99fae, 0x3ce13281f62e6fbd159f987bec37b4cf6acd55b8951d52866469a5412783ee6b, 0x5dd1119100bd9046c32cc23bd998bfdd88ba134784521e75a0aceb20a79a1c99, 0x18f032878e0a3a4a255f9a45de6f8cdf28571d32db8e09a052fc72aac398274d, 0x34e744dfe3173f383763c725a15789ce2f626661d7af13317fa4543f353325ee, 0x2944c66d2e50b2ab5e5626915940e34f9c4274251e163c68cb99184fda7c1ae9, 0x50c0eab6901e6f83909b1e840ade18e15471cfd3793751b850fc337122ca84aa, 0x6e4bce75264b0c5061d759986370ada8700eadef2db94e082f94b6f815ee456f, 0x6055d8c0d7b27f16ce9a5efac18b9292e07bc8dbc86c53f4052cb774bd91e6d3, 0x14145a733434c6a745041fa561dd1dc236cd12ca964882ce8c44e32a0b15135b, 0x98410910eb2cf3c1c5a854d009fbb3bd542a96932d6ae6ffdee8b0189803e0, 0x3887ebac9f18cf4481019053d1feee0217e7e260cadf263f7bb44a360fab0c74, 0x4a4288f27266a8afabb569d1eb1aae752cfda66a011c3c522cec590b22ff737c, 0x58e67ff92160e40ab8f8566811e07ab2085b65c614768078eb818fc40a23cdbc, 0xad0b2e109f8d843e92d04aede7ff7f5e3ee71ff25af4c355bf158bed3f87c25, 0x188f623457ccad3e16d5a8995964c4c24a941756e945d0ed34548e9c79112b6a, 0x3e7446bc2fb071e17e1bf77e50308f432d3b80c1a73899239cb4f5b68b5f1b24, 0x63fe507fc7685363714e994150d0768050d31008be0ca759636a44490ad2f94a, 0x40e08b7a78fa87a311cbf71566c1ae8c7ac65e7f215f8109618392fbded86c47, 0x62e60d165096a348832532d49f47a9044b3495fc01607cae0144af0fc0f4c17b, 0x5ffdad4a05179c3a717dca6e9dc1a9481ee90aee543495899da53fffa5cdbe67, 0x335101a5a335f0508f05d544d7141c7fb01c83a320430dbf12c9a974877489ba, 0x51d41de03a1445d9b5b63ac2ded42c81276378c3363918102100b91357ac2ccc, 0x5d6dd7ca5658839d7a86df2206612db68c9da6040fe2694128ee07321e7d6677, 0xb9e74445a00b34efef380dafda32d59227e4323bd74805074c143feae889ef0, 0x6c9da43f922f4187f0e179c958267c1596b81592a4351e2e9ce5324ad9fc1d5e, 0x454033f9d48c6819afdfd83d73ffbd2fda5bc03d53a1fb79f98e3abd063e0db0, 0x4f08bf503d95aad20c89fd1e3b221e714a787ccba6dd08431512e4e5d91af57b, 0x3915658b236bdb3b44880ff7f5e6e726d1fb1f904f5b78e14555f360d3d9e158, 0xacfd4bf1654b942c18248b0f538ac26ac34988578949ecd7c291f4a0285cd3d, 0x48e04608cd3209fa09bc6618b82afce3ae83060851637ffbf865877070c0b70e, 0x7217615b035c36ae120f9e0108fa83f5b663aa959a8c8e0b3f6bb89f2a1c53a9, 0x37637dc42f125a6ad0436a01023c453476e9fd132a7f595a24b50c94660b3ae0, 0x610faed1d41176934be65068ef1ac7bc5aaa7fbdbc41a3d2ec1159bc1e0bb6aa, 0x6b387c3d99960cc901f25c2a3cbac481b6000bb5c167ac68fcd36821a146a2a2, 0x67fa3cb85cb87829a3b9d7dfcdedd78a6a10012f894193e9e2c1660ad6e622da, 0x61ba31e7d6f562b1bf80e4fb8dfe350e3449f5d2e50ff2f7442ddab9c1a579c6, 0x3bb30f02f63f6721c7598f38956c85d2ce969cbefc70dee087723229a0ecb832, 0x4dc09d86973c3fc210367253454a0673b8e841fbf69e719a1a1807ea8db35922, 0x5803d6f5d2f1dc9da919a46f7058791131148cfb40a397a3debec52cfbdbbba5, 0x605f80c9563d61444a1306b2b61ae6ab52391d3597b324a9b73f4f2f204c3798, 0x1f6004b760251af842aa0a19dbb55ef129a2d57c171dcc1e7d61a84fdfb89419, 0x261f239658c53f580db93e4f3650ace6608e3744ccd2712470f3c7893d63544, 0x55114f26c26eed2f8ce70084f646c199dde6220ce800a890d99c0d0c6d4204c4, 0x128bf3a8d815add878b1a825a952263f86fdb79372d859abeecc430b1eb95d22, 0x6485636c5cfaa9203c024ed72220143e3742c83173b1b9f9018b06a8c3a4a206, 0x528e70d6e1273bfb602b02e90c906cf09aa5dd99f9277b5f56ba90e9d3dea614, 0x1e8b95d315034172d7a9e39926059ea40d88485a403d219d99814b4f1e3c006a, 0x3670300761f6cef81390529eaf754f119f355030a8a5ddf48c376a84d1fb9a4a, 0x2f3b0abf621c3d4ea9bbd6911d971bcfdc09f6cb625954afd5ef0570111b14c4, 0x17d4f29bdbd932bde7ba1a6bf408563a0590810803173664f22fd0b5e6ef6954, 0xf4544388a4134474c736df219d1e121f0f8ad620ddd411fd803442ba39ddb75, 0x3ab9ed8a299e80e1d46fbed7e01388696900d77c490c8ef1335a559853c28d0f, 0x510f01f10fb08ef473250e93bcc5fea451b77f05b1acb75fb22094a90cf00d3, 0x4ca62764e0aa05853ab5ecffdb80c98dad2603d46975c0eb2f2b13e6baf344d5, 0x4171a1c1911dc21145640cef9900b916a4b304408105d36a6fc79af1ffddef1d, 0xad5f899f98bbbfc2a29ee667c9f819b59a43ea71ec5bdcb052447a3f0b5318c, 0x72fea0ee69c07f54214cb47ab0134237acfaccdb12404bb78197f3fa1d759cd5, 0x1bd1c6c32281c7c4cfdc7cd8fee3fd5f35fa064bfe9eb9b37257cec3a4ad5b21, 0x25e5c1b88024ddeee6cf1605329c828b9e413e2cc07e670208ad3f8754da304c, 0x4c01175f731d83eb8bfd67119b61ae5585b3dc1309f596c31b8a13413e5559c6, 0x59b83a25a7c44a1aa542d1acecae504ebd013b3406ea3f3c922808c9fd0c1268, 0x5aec9574d4ec0ede3bf2758bbd3bfe11d66ef14663ed99f972cb2a16d8c89693, 0x44d162b34c8db455546ae9854cbc8f72d61caf9f42870fdc5de745ca278b120, 0x3e1b6f7a539656d8970a748087048b2faa0bba0a181397b87eb4bceed2f6aee3, 0x36b5a4ea7abde88639bc1928a5f9768220d52de90ab4a88655c9da0246b97376, 0x6475b9991b3f733cd1739d9dde69084f03544f4092b09bad99544755875d748, 0x61382725d6a34b54e2874b45b0ee154081a1b7301460b714e54cb362e3eae770, 0x1c29ac3450521ff85c4985e4a785d83ba0845af98caf92f3bad964e274686a1f, 0x2f0eeb3e84ff380797172206abc08a1a368f326d916bf5614e0af61d4b6c6a8b, 0x56602949c4eb42d5eec638530ea532504bb3ce30d74e3ff0458cec6893107a59, 0x184c2baf808464923f2295e1d315fb6b13ec2026b32af7d731b3e116fcef753, 0x51d70770640a84054599755307470b3550b1c48f5227669eb61a606c9d62ee87, 0x615c93cf950cbb8040a2be1d77d1fd72cc9f7cdf3b1a70113c251c8d3065be6c, 0x328742fdc73912c94a20703f7a3cbb1b1cf66de584bd5b6208c716beaa2fb1e3, 0x3a2788f95638ac0d410c544ff588d4767dc36a4f9ee018c2f24fdcfd80dbdb13, 0x5ed11c1c7adf4b984c74c110cff2a048346358727c37aad29eef9a7eca05c9fc, 0x2866a84d2a5839d56fccf78afbcbd79f319976e55780723dc6c653d2c1847072, 0x14e88a00dde73b8f1dcbe4f9993620f98d62dc28783f39934b2819f3f4f35121, 0x15c6a5085910315afac330ac5bbc5aca0680a1bdb2dd1fc8b5a859051e958e6a, 0x46bd1620bee2d9854b2b484e3a24f3ea58651776a98d35d55a5d06c1872c592a, 0x783093a22984f05a00b507fb278a08f38d65d045edcfcc732bcaf9bf1e9fa75, 0xd8e8cf62ee39eed9e1a8caf11aceaec748c1e1ebf9f50118c8282d7e1318e09, 0x1c738569d040c64851758ce8ce260549acdab7e47f7875af49a6ff8333fe41e4, 0x699bbbdf8310bb910ba5cdec4f2bdc390ba95aa09eec592c20a70ad01bedc90a, 0x6c6e69cc6497a1a1b664809a6b72933a49046f5269fa22bfff1a8a080f8c05f0, 0x693680b1cc41925f5b4ae5349c30593d174adb13a7069536ea7a8b379792092a, 0x72ce870c5d04d4c5cd758aea4afd399b7d53511231c15767b06d633e69720737, 0x3b8948a64ca13aa5a0fa2e7f2309d1de6a98febe4485b334b568ec054c0cc4e5, 0x60cc76b9a6eb83d3e2dbf57ca4bb9becc5b5856998d94cfa5b1683a829210e94, 0xc141cade7eb32b3aa3d658023809ca523a69d1f1251e7dc697d334ac49e45e6, 0x6a4bb916548649c92555536ecbb51c5b7c307e5f69ec9461b0b7774cab41af15, 0x3a154bc9a415d27122ccea03cf7a75e9a45a6e2473797d72f018edcab062f08b, 0xfcfed45a1c5090e784870ee5d847370f96d399e47ab681591bc98e116774336, 0x386b6086f8e5f3333d8cf535c38f1abc9f91012aa43da12a661b12c5a45d530, 0xe8d36c2646aab6c6f2ba29abc7521489f9ddb379b05d52e22fff10b6a93da6d, 0x15ed27c6aa68660d2b111b1e1aca3d844eba2c8a4db04acd8d474b99a7531e26, 0x499a7dcb54e48519b35cafec8c4b65526fbe24f926ada9143fc4c92304c893cd, 0x8e699bdf200f42906a854bc5434e20ba12b523fd88eeeb0b23f4832a6e04775, 0x4321ce9bc3184a228620debf80dad811e0f5a9357a798e18537245ef33398fb6, 0x5feb19fb9b951d032cd82fcbe89ee0b1f8867bcfcab01e8fd44e7c530e1cf296, 0x2c452ef2a54350032863b5e6943358156b55ef02c80cc6a730d6278a800f2988, 0x4a2086ecdc159cc1fee60b4745b67dfb70acf44d31792ccdbf1d6cc7001f2456, 0x22fa8f714ea91d6268463d9735df964efb6164a33402513fb075873cbeb789d6, 0x3799180b872097ad3c1975f9c81541fbd874bf05767b7aef3df0b2080c4e8232, 0x30d9e5c7928ecd22f8b93ca1712c4f47e2327d2a1e9055858feb40eba40b0c4d, 0x48f621407292edddeb56e1af678e322ca366c1353a21f3508d5548c13ad85fde, 0x1046882294036f009cd4adb08834aed179435167ebea39d04356401ec39342dc, 0x32a452b27347e2fdd6fadd685023ceafbbc37dd1009c54f0eec661d62b63a1c2, 0xff0bac2d8e29d01ab203a5b20f6e9504d555ed7f0fbf11aec546b7857f1d6ba, 0x3a2ddcfa7645fccec370230f16344017c0af47c58d2adcb050810d4db6b48f7, 0x469172d50a4d55b58889a0461075eda11052732fb9b5f091d7931a292d93aeb5, 0x21352be75cbbe7482f6084922ad0372803843b62177ddbec415987086ba38661, 0x5aea9a7f2b70521f72671e86d2afb0ae70aebaeb258181546033ba51c17f83c0, 0x35c6206b589e02b6fa43204c4e89a676770c4a6a0dd9a1b26ec3dd9c0c3dd597, 0x25c549d1a967f232e20ce9f207ea29817a4fa2a09a7d34c54e3a3196027a3c64, 0x1c0cfb1b255a1d77b34b5ff2691d61d6542b14170de70bf7cd05f3abb6d4c812, 0x2623c09e45f55410ee1ea186c960ab6d990060f1b8ed0513a346aa689911b909, 0x108186d8d202c4eac57ee159a84ec4917c6813ee3b191ea34075bf8af2e74963, 0x42d35ce50cb74d9f4b3e7f1a0a473205b19483068ab2f956701a4e92cf14bf87, 0x2ba8a558864afb38ddd587057bd0c3749e3010a92091ced0ece6a6239e74d948, 0x4dbe0ac5ef377ec2dccb631229d84196f7edf57cf1b2ea2aa62ac55db8b35584, 0x723792bed331274c19484d5acac2eedf5452d1411b72b9ff7e767e3dacb83b10, 0x1c876fcad849369e7ab1cff3cfde5089528118dea98fede586dc0acac896539e, 0x46c639d51b4fad705627ef2ab94ef368d2690bfb0c44ce907ac7e960062691fc, 0x32bc46011270c0528b88d41c4bc0aa6dc3e26f15c81caac0c93b732aac3e5bd8, 0x4d0d3ad1e12c5002b2c2d1e7b278c6e937c0a0b578c87de082e789dca9db6880, 0x69b6a77c507d3005b99c3577f1af2be46ccd787b66ea2b9884c89e325e3578cf, 0x35f4f5b9673a6be0d2c202e9a891707f599d9a04746d677e45ce0dc39740b96a, 0x6a3241c3a97d54f4210cbdabe4a1ba9fa6cfb2b636f3389e67bc509b30b9fee8, 0x25627300ad1bde73a56ded2edc74e335521a82725dcaa35fd7cb22423b2a6da2, 0x140c48c9a086e32775551c6a99ecf5bd227cc3e805a33d44e5c78d481305e4da, 0x59d746b200de8a1c158337ec14e0ef5636923d48714fc99f78392573ac6f9841, 0x401e186b72411de61bf6caa5d7ab10da4dbf3b2b78c9e7ab36d4bec2eece2543, 0x40d68003fc7dc55d9f48625babf5514c3b798da160280be2302dbbd6d816cb40, 0x35bde49e7f308bedaf138939eb6dd83c80bc7c7a3285951e9b9a734b2923d892, 0x69899fbdb09272764a4840ace2fb4cbccecaeb216cac1c6393bfaa54f3bab302, 0x141c1a7f698e1fd54ba803678f66f805d3639d96bd69e20d1e3bf322f26058df, 0x45c11f2529023750e9c3f1670b43ab1d684eba8eed4afcda4248bc78437d11ea, 0x51656fe82f5ebf891847ce01579f707b3a12e833a338f860744e640f796ea57, 0x2f00d67d401c1f8a14097239c61dc8d3ab51b5a58611e0f6cc09e3dbfbe8d1da, 0x29e8cb0401278818e97dbabd7fbed82745690f722dcc60856cca577f5478ac5f, 0x2e545de78e9e2db9a71fa74e4c86958d223802661e170258b7cb0253ccd3a43, 0x6ab569d73d713bedf63fa6cd075b3cb019462984d08e4679050f5ca5600f3c8d, 0x6ec37ea7d5f068d9edd7ddf994773ab91ec02985d65189222a5399109ad45ef5, 0x25ae62214f0d28f6c25a30ebb3bcc2787701f89e8dcc5ed15a9ad0240ca48460, 0x5446a94456936d6e4c4cb200b01526c5cf92073bfbe36f375ae8070bcb05e5f, 0x537a5a3b8cc9805374fa9e75a42674098452eca0cae295e68072579f7578204f, 0x1a894787c9d385f8119455dfe517dec0c7a5e679607f7af423190343da2c1771, 0x5849f9e584390c5759da6da0684d843491e27dfc218d6e07dfbcc9ffdf1e8143, 0x68d6c042bf411b9a436c821701ce66335436cd54d85ae927fcf5b339896b8a24, 0x615d21a4f57e31a7c495d1e8e6bb9d4f1f2ca1d8d61110e49b89530b0c5e74a1, 0x43b4610e64a7a7674c8b8d784a99eb89095971da408f15d5e8d5c84d204060dc, 0x434528df4420aecabef9aa344c34d3ca0f778e88e8311d58f78e6e3dc30c755b, 0x2666f86423de22801c0f5e02413b13e57d7e79e3eec57d44c43328cc29cd0579, 0x6bc8f4557a068d6d022ce32944d6eb612c92b02c954d85673bc165ddb8c8df08, 0x4244aaa5393f2bd2669d44684d2175b545cedcf089a318d4de462ffa236a466b, 0x1addcc33b719b090a9a82033824ee09f62f84a311ee7f0df694fcb56c2f77e72, 0x516f1569db4be1727268ef7ee2d247ad628dc265594ca0fd4220a3e7ca78045e, 0x498c354710425c261ea49805b54c0d6a7e01aa3a8574f1750cecd396beab8785, 0x6d63e1997221c44802a1328ade0bbe78a049b20a13da84207f192e9d70d3a7a3, 0x5e7db7cc9861bc5a7d0e10f51a154d6d53f60376f6f476ab88eee7a780f6bf67, 0x4fb38a3d14fb1edf5c08de6ea55227171ee69a53a3b1c4207c4acbf4794bd652, 0x4e605709c9a28fed7acceb34101674ef972cc2c5c8d719e5edb787561efeaf9c, 0x4f0a52a4e5147f616466a6cd3f75c3042316b5ca006a2e2dee89a1bf42216f8d, 0x6619909c8932f3f76c3844dee7816ba35606623f98b2625c1b56c778129fabc0, 0x7338b983471f00f778e0a13064c746a683163d5568e77d6f6270a1c753dbc209, 0xe094980bd65abd2d469b37f86e82ac941bb8d534f5a4656555273a0a33ee0c9, 0x63643684bd3fee3e1b405a70304a87c0480745c519ec2b2c93df57baedc83d56, 0x6f40159ad4afd79a0e3d50fe3635726e2d5588cf29e3f58498b33ae67a04839e, 0x14a4c2adea92ea9951036050c0eb940f5f2c913738786e8f920d2e532a4659ba, 0x42a93b01dd8e638351d503a980c4d139109b74c13b3cef072096631ef5d8c0e0, 0x65f4b43b171a65a0bb485e77df115b87681325f0ce1305efc6475ba2452d3515, 0x5a3bdb7e5737780b26e28d6f11c0e4cdfc718df7eebca115ae548810776523e1, 0x4dfa4ac12eef6af64159040e5bc5d8725cc1099f120c60acb19682f75a97709, 0x572e2b27059505f242a4e707cf8c562131bacac9915187ae52e2b60fbadea27c, 0x58eb4a9383d4d660eccd920d63fceecd2fbeafa5d394d37aa25ed04d0b7b7a0, 0x1f2745dc59c929fd8e75b96547074646c8e7eccb17cfe96f2cf46ee46482a693, 0x541a009973e318c3687391831e8ab550f16c6d04e2345bc335a0a0897d787c0d, 0x6bfcff595497ace443f55ba87db1e73d8cc093cc7b9130083a59da1305e4f220, 0x1cd450bfbe814e516bf7f3fab0c57c5d74f86413ac296cf2e894467941c984f3, 0x1c9f73b2f93b3a07d39c1839d56e14d094380aa8b6f2021c5acdf1c3ed028ef9, 0x67e5007331a4ca72d5288a8f22dcfb2763f18c5d02e6a13ef3a84948ad9e7f8, 0x1af68d204c327f93bfed120c0fbb7521da432cf9b00ce9c6946195f545fb4e5d, 0xb59a0a395c7197009a34d7f60d0c6a5b27de3e8882f4aae0443fa42287262c1, 0x12465719469d5c90c2cdb6df5a536838355bd4594e8bc8f763fda996e63c1402, 0x351fde093b65c40101721a1d5bb01454a6b3c029135b7cb231c98e537303444f, 0x3466f5260aec76d80cb09f935d5c16a50e80b9f208f83cb4eba614fb2f82c921, 0x32deb02b7bf239915d47b79a6abcdcc71c40a8d2b35f08d086b64d04ec8fc82b, 0x26430f6adc42e4c5c031c347fe2d4abb0adc28e630c74af47a47adb6787021e9, 0x15beef0a573815c83cea971ba114264fce45c73302114a63c62b510f0494bfec, 0x2d5475ec8778e7da1d08d2c137a29e571c57139c2b47a5109240c493c523c775, 0x2b9b9bb24f96070bcdf35e8c275dddbaeabee722e416f0718a6882f452bc81fd, 0x17cd95aa0933120170017ccc74ef08cfe003ca31fb4c106640bb8987c34049f6, 0x7261b745500659c1d4b77767bca81d7de32849efdcf52d75b0c1d5a6f614fb39, 0x20c6059fdacd6876821ba245b5ea40640540635205ebbc016fae90ed98d0508b, 0x6880a0f152d5a99f06f5d97337fea36ddac8bbe4dcced0e589ed91c78138495f, 0x55db71a85fb0e2abbde4f9fea4ec74475a04872a0aa4360a7def0370c30a59b2],
    M = [0x171da6f4e6b6d4ce471d4caf4e8d1ca6ce61b9b0799d99b3b2b66d388d0e0900, 0x9d64b2f971d40e8bbbb3e69800d52a4d0c5cf486fb35125311f788dd6862559, 0x26f79b14521722f9e481c3106e2049ff34a4bca758a47450a6bbf11cbde153fc, 0x24b2bb8b4ecf4c6098822a143a7682687c831c6217f8c3b247e9b0b20d862a7b, 0x4810502925ec5e95ade9aaf1b86a5448c931e2443f39af7dd27d3e26186133d2, 0x3685e34506d7363f8b6375530ea1752079d98789e20f6408befd0aed1050247a, 0x33b4473fa6ed2c3c9367364c33b9817c023fa764039407db0834d18284f7f8d8, 0x28e3c6f258b58f8e4b1deb3bffc3700ecc9e8a98dd7c81e666d9ce06413d6540, 0x1c5d91445ec85e30da3816ae33090937e96efb83170e7efc4caac6ca7c09bb13, 0x2fc83e5487b6631c22d99be16b76246f900141d5799010795b312d327704c6, 0x1cab26fafd4e725d783fd264746df8e7982af0b5d5b2d5e84c5c16a4d2c4f7c1, 0x614c284b4bc2836756da1556a711d415a61349aea02410c806e24b2250d5958d, 0x17fa18222a04b073b7f616a6854beee9a28b3aa70210c5b46250863765105d48, 0x69221f47d4254612ca7bee2f1118bea3a232542744514f27c5d3cded434da2e9, 0xdebfed552696c3ab1000376f640338925e70d066f4e2fc1f086eaca1948844, 0x1a7ebb4cd74aa7d8cdc6e9798b6f0224237dc5fe4f3816a2a8e155f637c1e59, 0x39d17456c73d9acc73c622f72ab66a46d8215d40aa220805673c394184df2b28, 0x6ad8f1e6bfbcb23ad073f155e219fc7295a3e909d4d5dcba2d3dd4baa6fec846, 0x49d98643f3b8b0f546250261187b75794ca193b232b72fcfa0247fe89993aa1b, 0x1ace095e54305206168666360ae467595c078b749f245ae13d52d6e63f939dd6, 0x5cea23bf793bac12029fc90938d5083786c6deafd3014e5c08ca75c7c1c7eebc, 0x81f306913b5eaad4a35a0f8d246315e381849c7920944b4cda1ab31a7b7c16, 0xce461ed30851438fee5b90f513e26acbe94a8e299ae991b70fe3a12cb010cc, 0x3c3c4f4b1e73eb18c47c7ac4b150d30aeccc181d31e19a1e2b27e5200f849953, 0x178e60ed5a4d6f98a83853f59b79d7a755e9fc73c46a99b2e6dcc72b992af47d, 0x3471d3c5b3a6c08ebb9e031c1215e37c9eef7bc868473fbad189f833654625dd, 0xab2d02d994be3891ecb039f273c12b7e70b41a0f733a50c88369c82f81912b1, 0xb71f8ffba9238971f1c86d118ca84253d8c2f9da28215baa4ab31a283227f15, 0x4e6cbbdb5549c6213a3344ca76eb34bf3bf831918e68a4039aae64351af65cfe, 0x1a907bd12873ea9e1a2964dc3f6812611d3bd319b7b70b0156843703c92cebd9, 0x527dde70a63e7d6069ed8ffaf63694c9b91b710e6cc82b4be90d8b9432cb479b, 0x32a2b433e0b42ba8c9c0046623a3e9acbf559dab73a6ab76c929636c125c87b6, 0x21907f7a7d6fee5f8db6d455b3fa7d6a765eac75caf5d2f598dd9b822bac2b6c, 0x66b6f2a51dad15e1dbfcdae982db99f5a39fcea2c1fcf08c9d36c85c4b4ad0f4, 0x538b834ff108b1aa99f5ef958d30e84f07ed3c55b3cf40d183f82e80b6dbd1ce, 0x6f2be4569c66f9961c5d6872becff7a3e9026e9db58e773937069d88a62ae96d, 0x5c8864d0389e4a4c5635ce66fa37ec150b96cc592f96654ae4b4e9f6192ed5cb, 0x403ea3b09b0574ffe8186be4f6c0470e98855cf632d45e9a18db66f7bb0a29f6, 0x5bf0c0f314394c53bf2cff0354aaedfd1575155663a9cb97ed1138d91ebef0d4, 0x197a6a41e7f0177e36f67c30a753eab56245e971806fdd62a710bda4f630849d, 0x61bdf7988425548716856dcaf65d7862ac164430407817cfb83b6195fea3a1a5, 0x15085c303b55665480532177253683edc639e0e5609f6a013361e21bc41c6dfd, 0x47a5fe2c734e3d0dec62c3ec0fee8330331048d1e6d46e9561438a84eedc9692, 0x25e37bb5e044f75b394faebda2ee8b1e53cb918f31c51c81e817dc9d61f01bb7, 0x4476ec73a32faa84684d5119f342ff482fbce1fd4b1b00bfd4c46d24134f9b4f, 0x6cec16ad07d77a8cd0523c04f49259fb48f4e03708c2c741fef6020999bb75a9, 0x68f8e0908b7a3627a8ce933108fe60a75d54db922b8f7ead47dbe80b5a395b52, 0x4f56b85cd94b05e03be41b204a268d41895145ef3177f3ec887f22d5dba7012, 0x48d34962b353e88d66dcc250fb2f93174c54dc0b8c58909a7fed81466258257b, 0x3464d7cd7dc732771d04abfa93b92a248c8f0ad65f321d7dfbe566bc481679fa, 0x5b083b1eec2acedba55f3643b3198124d50f7caac3e1d433904f0cbc9d0f20bb, 0x540448137e5c8ed498024f1ccde53503e71a94534b124c62c1cee66ed4a6a4dd, 0x34aa0489269cc1ac0c136a583d1ae30bd2507e8062cd069fc52ab12c4bf9cc2d, 0x52a4df438aff33d61b4530a217801ebec064cb4889e38083c08b848617fb9372, 0x6848e2ffc60e096116af242109b50a465de749fda475f63c27d28d4bff5624fd, 0x42d4dc66aba106c4e1eaaec6d0011229c0f8d80cb925d5534a16a87386a994e2, 0x645df9086ad120c2af4e071b09a4b1c8bb5e17cf9764b57f17513f6a8be42604, 0xc70ba7d2551d8b2bf89c4a2d1d2fac2e101b4eb77f041638c0d509ea0b2fe4d, 0x1c2d6e493046bc2cc1fd78e027c8414dd168f26ed9f2a2cc5b63d7d9de2b4326, 0x513fe599dcddf4678322c0c9639b3c623b47c457bb849f002a217ba9f5623c94, 0x5f328df7899a961a239010cd33b11d1a79283ade3a2c529374f5d0da37cb0b1b, 0x1b9856f8c7f54e2d7b9d3a6a47f753025138f60b31c971b1660709e65b6c64f6, 0x1a2c53d44488aa97f51dfe1bd7cb409230c6cc5e43d9defb8771dcbf5563a7de, 0x58b1ddbeebff07cd810985813159852ca5df7bafd7a1293a96c4273929e5e888, 0x1155f88d657bee5d39dced729935397f0018a1781df42e361fadc5002d330299, 0x2dff76dbc7c9e7cf841afe1802906b918904781016165ae516fc29cf7ac621e3, 0x35c29e7e3579be8c2da8f11a7c430dbb4f94bc566d2771b07ed0a5ed7f3fb008, 0x66ee73833bc3bb04dcedd4194fbcfccf1f50d4a1329cf10e16254b771ef11191, 0x5f9a4dcd5efb1030e763e054af1bb0cc3f544f58bd739a90d253227eb81279ef, 0x4a258a3ae1dbade666225ec0c36fb062bb2f79ff89676d7c8d9bfd2ea8a624bc, 0x319a10efc0b74932c170fbc4b9c6d34109578f8c31def7feac045930e57ecb7c, 0x31336a1351ead20783c90d6fc55a9da8f01df2fdbad8dcd4df38d6d4279e25cc, 0x5f9b2747fa66c829f4baef3c783b54750c3943c020bccf63bce1b4de3ee27659, 0x46a1f6bbad96f68691ea7f1a389665ad1a54fc55928c769e127e3f3ccffd33f5, 0x6cad0d73f159a627a2ddbadea0c207c17b516c05327c9b0c9c31ceebd9a8a84c, 0x2db5b6750c49ae8ee5c8883b94fccb5f0dd37def256d27dffa3ed2e45a98cb0, 0x5adf21ca8ae121c87a004b84cd4c5afbfcd350f44941cf21e93f696efdc2d504, 0x6e5f0a0503c9fbadb4f5a1754f1823e963f9102f48dd138841fd1d7297f6db06, 0x227b47da92f61c22f163a2b21dd45ecb9fb4c43d9eebdb5f85374cbc6f18d7f9, 0x27f43ffb12fd88b5bd21ecaf23831a51c4e10bfe8e4a9df7b7bdbeac107d36fa, 0x6bd227efd85ece5b397f30d5cdbb57497e26724f66c27de26e653cda891c9f4c, 0xd3c76bfe255c08b98d3ffddafd7cc3e0088434568426da6797dbe2fbe51a555, 0x79c16e06c126443d8efb76c21d257d81f965ce7bf80b8819e3476bcb2fd5712, 0x62ed6ddbc867dbf708f954af2942181fe9889c411323b73a53f4ecb627324d25, 0x34d899599af9a2103ddd0da4e50b99c21c502f299a28eb766345a79320ce4041, 0x4b0e5f007ce5127f6d3bb33c822a5a8ee06b8381cb4e80b2827e4aaa11522f0b, 0x483964d854dfcfc0c8b7f7a305ffe919f24b00724184cf3af023184223aa63f5, 0x6b8906bab50b22c319b46aac8c3f64f0085fed2d6155be37fbf68b5867eb0f0a, 0x2a111592d1a7d4d3c0a848a1e8977a0cc65da4503941b76969dec00d96cb536f, 0x6a8a1b8257f933fb11a1c70f66d0acb52ee453d65003f353a7c63ac673b517ce, 0x66dea0352be47770aa80ec349f9b8a3c878f26eedf7eb4aec70aff2753d3b51, 0x60128afcbd4d155f2f9b113293158327480f105879d9fcc3873e31baf974d8a8, 0x1cb8c3b1a344a3cb914e41ccca7243b1a193455980af5e941b5743f82a37b46b, 0x13ec61c0267d62ada145112b169d55300925bfef32b10aa0b30c9ec50501779e, 0x19b8324e04794ffa255b30713c88a2087ceaee6491a6344b45ae6cdaadc82237, 0x29399520bdc5334d8bf3808b91904ff3aafb6de24b7a070ea218d3ea68691c0a, 0x48288dae9ca023f1e70890d24c5fa7f0ba47759f5f3a2a1c9937752ccc3dcf3b, 0x24c91e3ca2eba09dd68d1da05da93f3b05182083ca181fb479366c365c5cdf64, 0x43125460947da94e97d6d8c66352e210d4e182543406d0c6810a55009457f0c2, 0x43c4128eb94eae46aa7f230f63ba74ec5a181d0604a0dfd6716777fa09ed87a3, 0x8b02b22ba6c8f2734b8402efc18e8f195a4c42cf292f7d43a9358235fee4546, 0x940bf4e56613ed8c9a703303d55ab6328a34b2da6939eff89ce85bdf16172fa, 0x2c727c0c6037e634ae7262f1a1e06b091eec3fd10e776e0182c20d47add1a4f6, 0x22d1533d83e9061ce7cb0e43c178f5a20d6954e40f1fa437d28bebb66fb474bf, 0x563f8c3b640f078aa4cfc752fbdb5b87095e40f372ed02b1af21747c4e0f08ab, 0x1f4fc96caeff81c21368179241c7a7c253f1a64b297f371c8e1e31241b094299, 0x4120aa455356756f1e6f6a1a3c36a8eb169c2273f7220441a79425aa03a279ce, 0xbcaea2a73aaa15959787068b1f9dc93e108459ad30a3e7a82068c4149204676, 0x70be31f79517ecc6f20d963ace52efb7b35e1d7c0339fb6e2def0328134de3b9, 0x688ecf3288d6499a31300f5e85b79c5f4a13d3a56932ebdce80444b95875429, 0xee9773941c5adc47b97a05d976192ce677f4d902d014bfade4082d8bd9637a5, 0x49aff726818f4d560a7b788b0803dd2d1502a6360d8afe94fe424dab21a1c14e, 0x6f00d0cae8df58c389851fcb15906cd893a3399fd042abf28f369742b19338c, 0x25b6a58d49a95564a5179837e5321afb15ea784b3e880743147c80927ea1efdb, 0x5efe9fe963a78706fa23f21d2c9f87a1b9c767c1fa50e9dea3004e065ad279d1, 0x226651cee807bbc9a78f5d4ed8265edcd59c868937e1399dc2b07f6a807bb60a, 0x720ebf126f8c1d6ae64546241c24b883a28ae9e6df263547b29afac4af0e6211, 0x67d42789fed3bf4f5df9e2b2618d1f96ba822f8bf166e70d330daae2a4d064ef, 0x37c889168cfbfbfd0506788800aacab8b7337fe84683822bfecdd34f80dfa97f, 0x1ba9502d85ee82606874a5296f3347504a5efd24f146cffc735306305e583340, 0x19c26d9252b7b6feb0e7fe51106c8002629b5fc533c7defb540326f4604f21d8, 0x2930999aa547d3199277af4582ae03b48951f7c9e73bf68f0a761eeeada58a61, 0x210cb3b1c1b4431a7db5d5bf06201134bfef02f0692b35a20cffd54492ece610, 0xac27619e20b47ba2555e87f60c2979968f770d36f6d0f689065d43cb5ea7d62, 0x42c16fde8ec58e801d0b9ef66cf5ab13e7008fbc8496060ec6535cde1e16c251, 0x2f225882a1bc028836a64a9a155f396f67eb4c2d38a9d1eedbbdf262083b3a7d, 0x1450743f3fabbe31674de5a7853e94a326afa583f1224ce671223342603c10ac, 0x5dc991ff0638ff2ae98dcfcca8e1a980da04b4f904c9af828860e32b2b6593b5, 0x6e07ff3553b5ce46a75601bd4f94e6cb6ec79272cc9770949f103cfab96b005e, 0x605e2f19705cca5dff8184d2064f5ed94cc7ecedffb583346415d74dd9d07f0a, 0x1e604d771599651af09aa1a9730aa1d17eaefffa838c3fd43f723592c09ff4c5, 0x43d15acbb83d59214a236033f058022bb35670ed6dfb30de3daa7155be4fcec8, 0x6c3c25a0d59c7293a3b0c35d44039360f103807bd3d0a4342360d00f3ae04d62, 0x238a1e4cd7d6e8e9003d08084b663701a77851ffccb497f1bb374f589277ab61, 0x42b32892a6f6ed0f8db358b2404fadfc92279098c48e75777f01595c878cc102, 0x4f46bf50ee949ddd6371859128c30bb2de425e78d4baa2881b4ab53025886fd, 0x51a385617562b5274c63ec8b31a34035cff73c147abf7800c7ff494f2268d178, 0x2af7253807e6ee540970d15d271a857c815eae230ef537020fd9a0e61d7a3d47, 0x1d9911a59d4f11ae64cce95e7683a235f5e97716408123a5b30202ec1e3414c3, 0x27204b777a3cbed95ac9f3eac3e9997888183bfa6a456883e00af2a7718105b8, 0x66f497b7afa1bbb6c6a532671e0d63e4d459e596bf08f18078ad66bd0a5b24ea, 0x7243899fc7df2f98a7c173ea9d5283f860e6832df539bf91e0d2cf1b315285fe, 0x5dfd1dff7c6db0e86122ab83119cfa4950a08e493a2ad4c01cdb3df71e678319, 0x2e0b86a100a0843f3e542c366f66c904fe7231cfa18b2e6a71ffd71bfa983f4e, 0x733096fb59dfbb1c6be92c9a525b3b59023deb8ad3e53ec71dd989dbeacf850a, 0x5fce915e7db42ad1eadc230a8c59c1fefa617837163cc3eb7af2ba9f72fbaed1, 0x4ca369dad5b20b36c179781cfd234189d2028559e6f199590d60d245e6236f18, 0x7145daf612a23fa4751c2f2658a1e78a6606684a1571b7f30fd6f5f45f721cbb, 0x6cda8f305be7b2716f710485a4ee57cace5bbf03ae6e8741ca6854080d2189da, 0x4278c4d2b4446d9f20917a4840cd1b41ea57b6edbeba2c097aa9cb82c1bb4d8a, 0x1ee42285bf428c140e9076419d9168d9e6ac60e167cb51480011c3b0310740a4, 0x61fab5fe79251db0226b12a2d0dfe62ee210ade0f8fe45afe919212edd928286, 0x69a783a614faa3747084dfe6f4de962b482e1a6c71198ecf63ccdf50f45ef7d8, 0x14ef1e86dbee4b953a3558c472d3a1c6b852ce52393fcd8f44d9e7390c4c336d, 0x42df5a5e6ab1d888d68033f1d4135ce3d08e3d33d5baeee98928bf4839fe1272, 0x584de27558a9ffdfcc148bdcd7531adbd7ff06f5135a251d181d0fa976f337bd, 0x3908bf92bb4e55d3ae39d9e283eca9e675c23266502c618d9fc7b3b05f02a95d, 0x3f7996341a199490064d95c8a1b85c8c6f8fd177d9a20a9adf955c01ed25d095, 0x36952ff180bdd3ec4ec2876286a7f994f9937bf327dafd9421e3d9a687cfc76, 0x2061ff3db2485a776e48efbacbd5657a5eba85e2a8214500519b5b0fcd22d20f, 0x6cdbdad15ad7bc6b27c186f3b3438060a09092d31692a6c2dd7ca2404bb0a048, 0x577550fb3aa205aa154e4be35c5a5c39f5099634ba22efd10652b265d1aa1e00, 0x54440362a722557daaa0d15e7c56cfe7f7b50b7a637ef5b63a04a69cfd39f448, 0x38af53f73eae2ba850bb127baccc47001d528fdaa9421b1183ecac13add86543, 0x5e5d5c7082d41fc5fb95ad42adaf083a0669aff5aa0cd7ac67bb7ccecc90607d, 0x72e10719f933a39bc0f2f21666dc4b6cb7bc4b2982a9de38ecaf247abd22966d, 0xa334e2e63a4c059a2925ded311de5a2bddbc095c7694c655d2b6ca39435ef92, 0x25aaab9d94ceeed5f58a9c8fcbbc11fe8c2f058c8731bf76dbca995fd25966d3, 0xa74af003eda3a7bc78eb2504f0865fb0bd14c20c7b4fb34f1dfbb77cfd0e380, 0x3d46ed13283f67ddf7c5a4c535f873d7bf488007091cfcd83360476bee3942f7, 0x5edc290257caafabf1ceac64f107d18c41a44be6a251d2a3735984aadfe0123f, 0x6efeb240611ca57f98e3a39b98223c7fb3f37e74d66fd40ab68b856893c34beb, 0x2aeccc2f05b70e2b9582f40e167f3d3e677c21c765796060ec206451405193a1, 0xac663a88f8c35a4240915b8fa165284ddc1a6c48c17a8aa44fc1a50a9f7db5, 0x71b0ccbfdc8963017bf5a54d9af0bb9f622fd107ac83e585e00375d3609df87a, 0x425bec0f5bc7c1258b8639f485fd2d27c433c8f7d38ea7ae3de230f84246a587, 0x149c2fe314818bd3ebb0d1f98dcc5a872887c8e5e7439640c5300a9c6d614a7, 0x4b366f694e9e7b4233de93ad3fa508583a4b59f4d4badf8643c3da3b75898a5, 0x4a46ea33756374a055083eba90ada2332f66ef2ee618898eab42fe5024dc056b, 0x81fa7fb0f0537684f19a56fab822610493b2cdffc0d8ec9d439b3a816739b13, 0xe1df84a95c209e2bd10b4e001d832200963278955952114c5a23e6796415448, 0x2d61923d8c0ba00d9a18b21082b8bc286e25926ea104dda6fee62422005d97ce, 0x5a2a5edfaa841534cf0d7093ae25563dfc3b8636dd7e326ec3b1a81b93a3ad3c, 0x6f7533cf426a901e03255006e98e5a098c0e37e1ad942e0f5fd49a946d3b3442, 0x312f7c8cc31e2da77ab7f6ae7397bcd2264f4ab75d758b41d10f956a38376224, 0x4e79997d16d379ebb0040ed0c45b5c91ce05e3429611bb8be8b9dbb60d9cf74d, 0x46bb21fdf2262225124e3a243e06fe96dfa21008784aa42832c5b64d0080cfda, 0x56bf43a4ef73fede1c74d4801507d20fb98f9ea6c3ebf1d470fe7c0cb9d1ae2b, 0x4e9e4b76c84bf84a84aee359192f27b066a42cabb583c8d418259d93cbfb835c, 0x5df27d681ba0f1be9e3c97704ddf8c93778c04f53401ef1b1362b6bb8cc597f3, 0x65786872ccf70dad8168cb23cec46350cead1bdcbc4fc1c259e9316ea74dbb92, 0x12a1b016ce310015bdcdfe7913938794d63a9f86fb2f86e8ed4fe3d35199e65a, 0x557ffb58f193e1ed9224047af26285f726be01aa3ffbee18bd5858b154332702, 0x4ab0bceb895d28d6d8569fcdbe3e77be5d56e3b6b369fa90e5e5bad7aad03637, 0x3b2e83f5b93b0da7b07975ec48447d84cf4c2d3321eba8bfb59d010308fa54f3, 0x27ce98513e6c3018fb3b950ba08adaf00ec8ba256710fa6795cc6d5bb41608b7, 0x24d307e0ecff6175827bf9cb18e813e3d70a7ceff9f7257de662535a5898f809, 0x6a054bb12e1b33af50c75cf57fa455d22aa4c125db83e28fe336c21288d6e875, 0x1c90c79610635d7b2f512de3a7cc0de5ad80c51b555a85352da00ca38dab0f91, 0x5cdba7bf36fe71c23528b7be915cdde37561c7974912a85cde79c0d7cdb49744, 0x2bcfe6b0c963d0821dc7f849458a577fff45f645579d0d95f95b3bac425459a3, 0x33f9b799406dbd7f19464f45fefb844a9cab76dec8d2a72a70bc6d4c55af6a0f, 0xd5291f87b86c47787e836dbd8b9675b3d8072ce45127f32ae96c7c9fb860a3f, 0x50bf31b8251198d8ce99eaab6a9e5b9392df7b2cb9096d290b2bda7c17e78105, 0x17bf33b1a102c9fb5e9d19ada886bf96182c7f703b8afebdde42862f7163f58b, 0x4f0010bd8752423ae06fc467655214baff73f25741b26c1c35a25e29328637c7, 0x3d41ccc8e147a4134ed1081fcfdb84b3a4cb9e5396c5d3b2dceec267725b0479, 0x125e4e89881dbecc39b54534b8e4742b9e865c453cf2432f0eff3d71c6b2fc57, 0x5cbb21a70dd26a8dcc5dbb15f618421c02d8b47490e0123eee23dcdd3ffcf0c0, 0x11745bfc8b51c9831c842fae1693e9a693c14582bb2e776cdeac6bc7689e9ec9, 0x6f1412ce79b008a3afb5dc413b3b89a5fc7fb1870c5393ad8a1074c9e5b4e29b, 0x5c7c966efdff6d1ed1a571931e717e979edeb4f30d79defc5d167f016f5c0112, 0x6254889ac32014c69f6c5bbae7e4911ef837e0a12690c87dc45f4a87bae4ea6f, 0x48064d3745921abdd943e5ad2b9c9b91bc548f2851064fffd7f7f9ac362dc61, 0x3a1d6a1a1d626a05bc53ee21b4dc758dbc9d520319d27ec7b9e10497fa83d16a, 0xaf355605d3b39262505a3082ebfe9c0a39092c6225d8b440e1e2f79a6fdba4, 0x5b7e912e703b6634696ef41e420d4cbd7ec6a6ac40c2d95f4d87c0a6ed962886, 0x3f34fb4c5c8e1b5c927c8d13d6832c56322777661ee5735ddd9cdc6640e70c0b, 0x1a2d32b62575f33ce547b5ad1031614f7dafc156f5d39891a87fceb3485c64de, 0x2f6681c3c7749aababee427646e7301490fc745594b7adf5569d37b00411a631, 0x2b74f325c2140316ff3fa9d4669ef0ba19ab1e8bb5ae43268d15e6b6c88f6c0c, 0x5f5e690874bb4b0b22e8e4612271674067dbce602dbfbf7cb23caef5f753899, 0x6cf713fe46bc125471632619be057829c20d254fe0d69249b100f74c64824e3f, 0x6d49f911a6f4952b8503371537417527ff94fdd08ba11d27b88b72d4fe1572c2, 0x7596c70e5e74ebefabea0ed8da99eefaa1eb119cf3ee30af40037ac09f93e5a, 0x55456f1bb537f83a11ca8d36278e6b34b14f558fa6049ba7c70404eba4bc0b44, 0x57819974e0f4c51804804ab36d44ff5f2c78e7a50c3e012dc47240d5ba512b33, 0x305722f3de342fa44d5e90c822110bf805170a3e52fd4a4882c506f5bfec346e, 0x3ea977203964baa876836a9b0955820667e6d4308c5fcc6560d225c062497cd9, 0x44ffffb2fd013ed38de7231c733e033f4de34b63a2a74fc58b57c3815ad4c069, 0x6fd8a1fe112870d2eebed88de05d27dfdbd201212d898e053126594d24d6224c, 0x359c89772797805e59c6c55581ac2f5be14d33ef947b17d5ab77e36e26406c55, 0x5da4921d7d9f46590058d6fd80042dd354c9b2889d57f009f834adfc9d36bcd7, 0xe880e941173e08bc1cd838363cb633a00c7056c71953d38996dfe91c6c9f1af, 0x462b6ad09adaa02cc5eda253beee2cfd26b7e36b59a29c2f75bb1ca4137a5b83, 0x58fc5d7741d8923b740b1c2886b74a82ffb1dee29af81d4d2ee658d0edcae425, 0x347f79ab231957099a92b294744ebded694b91de6ce99b4b2463aa5e5aab18b4, 0x129c292132a30f630a36456f199021c7a799b9cb013b1d12379d8cec9cce1dce, 0x21f470c0c3cf4cc1524f2ea4e1498cf9368eda5c87aec25054025acbe33d2789, 0x59d52eb7bc0094f19212a2c04c57f6817e2dfc753d82cd2f57b2e75e7f0f1d94, 0x2e9ebe4392e3ef9b3418e63c03667e754c14d2f775b3f11c4703331a3b96751b, 0xf767548aee1be3e2ad381be27c397431a3447fd60184c04a38fc395dbf60ad7, 0x55f4210a36448d71f58af6ecfd2f7fbfbad1b6f628736feebbb0fc36e3494d4f, 0x3895aaa7afa8d6ad8ea55cb148ac05083318d1abe8b2b0e47a175ae5ca645987, 0x4d3a262f070ed66f75ae8861e1b5d87cd44be6d4e20e8c95a25126fad0c44eb2, 0x7bde298b20aa7712265e736f1b5ca0e887568209580519cb3efd461acab63c6, 0x2aec4284267e26badfdf128f504b0b7ceb802ca540316303ee7621451a799d56, 0x39ea6d41e0201900d5d3f864b090ed25cc2c962553931e4471521b65ea5a12a, 0x70e270e7465b512df3cb8fd711890ab9ef297a978d6fc21a24e0d6c7cbecda93, 0x5fc0c96daae5843d867c48fba8ae206d428b58e86ae2a11da3749a85f6513f5b, 0x2f4a23075dc6c528ea3d1e03d6031594425590ee60e5905838c0daf1f64f5298, 0x62e89344f47e3c663bf6a26f574dd12b7b2e41af2d7d1bd2c686430942acd83, 0x5b83ee41af95bc44f41858a10076a4034c5529bec53c415877215c77c464563e, 0x438ed178a716b51eb42ca5633a482106bbceb711e1b8cfe3284d45c201557805, 0x306cdbdbe28b84f75403a151bb2a25cbefe27a7fa54c44f680cbb887aa90dfd8, 0x728865295a1576521f1259fcb4ff43473cc7c86075036d6c4100401871a338e5]).* from "../poseidon"
}
