// generated by tools/gen_poseidon.py
module neptune_t16 {
  import poseidon(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513, T = 16, RP = 59, IDX = 1,
    C = [0x45e4ed98c84747be393163a2486cd016bccd5bfdb4f8a1bcaae81731cf55c23, 0x2da074637903a654047e848ac04860aa7ab118d04cd7819a63ca17a3689c5ab9, 0x25d94d96cf535b1df053502dad199d3557acbdb79c7b057d03c9dc25bb57cc80, 0x2351314177c537053c4a0031639c2fd002ef3196b7c68dbc545c8149c3bf0759, 0x4722c67773def58ec2b30732d9af050cab631c1ff6f45f05c5506c086708026, 0x701746137e2ab1fbb7295a9e46bea4d74680973fa54012e8cdf02b5a8ad7b144, 0x2aa114f8bd0b8026fe151972bf844a8916d29b17929d49b72b2cfc781b10456d, 0x69e8c9d11aa1307676d0450db9112d73918f36ff9f5369da04380edda4506b70, 0x317fabd80fc1060098442cc22691b72c1618bad463ba64f49fee15a1373ef22d, 0x9a9f0ac19dd2791d4a248cc0b9ca2b2c4e3d6f13448332241a2cb53b7e305cc, 0x1899578c230e8d8d206ec1adb99e54fa3e58025ebc25bda7d57d8d2a40f725e, 0x41e5cd960a62bd02593a30da3cf15bda30a637448bf624de7e4420520880075, 0x5eaa140bcb70329d92388c0dd4527b609b4ee931258e6c65313970596a5a1ca, 0x2e4577cdc277e0683f9a399980773f32dce5568befdc902b1a95cd8e57f58cb9, 0x3c87867ab1da122cb344b36c76b4b2c1c02964574140a5c46f5a9aba776603e5, 0xfaef4e66da19089373a9568d925b0e71e1d217ad07a666bc307b705138b18cc, 0x2926b5ab230262549bc3d77554412e30bec6b3744deb1aa180d10e1ce61d16fd, 0x2ebe3e290ca40761ae59ce0c2110760674b0a271ae9b3b6f095ce696944468ec, 0x50d98590d49e7c0180230074bc0f7c4620bf9fa856776bb0627f457f48201fbe, 0x70ca3aea9d5e630cc3b1c3d1300b0a25f14cafc82651c75d094a1b39a3e4b965, 0x5d62e112e30fbbc599174e1810e4e5a30284f72c22ec8a233dee03de1fe2fc95, 0x2a2765dfc9f017d60da0550ed4fb4d2c610a62f5e3146186f2f746304385dcee, 0x18d0265baea133bcb39726b0a122740803f26606f4e7d505fcaf3b2ac2cd63a6, 0x23673962d63abafb86ba53fd1c3be3e1e3d1972e64d53fd4da145c8257549211, 0x19b5190554b2dabcca6aba6b37c726801bf625d474d60e1b8bfd53b2f1a2fb32, 0x74e5ce9a2287c7fca7ddba429d74bab3d87f441fb9dc1f78199b292b12d2b71, 0x52e39297a3bd2a8e9d22f07780466ebe7c2cd2def9049aae29942b0bc5784324, 0x6c23a7f2a1d2e0a581ce022dc144b9e8cada05ea200794008b6c0a3f81375588, 0x1748e08e11b50eedc56817443388d4737cb09ec389296daddd479973272ee7f1, 0x37d248107a82353489d8d7a9bbecd2511533d2c047177935aa2a297430123acb, 0x701c5e725cabafb4818d9af79f4d3b9061b849077cd30b86fd2decccd9fd91fb, 0x1b64f3dc40cd73d296de45c6646ccfbf50283d04a2ff8681d8e8c98a856289de, 0x23e4cec55e6d6339100d9c690abf2ec246a3ce2fdca7955ce4b6ee89a945dd71, 0x4de3fd00b3843c05af1cd77946bc144bf7fc78f4f6490c6b137d75994275d2d7, 0xc847ce6b2bf81684074a2e32e21e4efe408d4bc757bd37b5d6ee83aa5ddff02, 0x105645b6daacaf66eac348df0bb73f5978c403bfa769ae03cc69fc29d671cf65, 0x5aeffa41499c550043aa36c1b66f90f649351db07e344e0266ddd0546605eb27, 0x5e85f323277edee70a0e2d781ecad97cb21d2c9b84ce41493bb6ad09a74c76d8, 0x32444432dfbe8b5db2534d360edb89064286324bb1239b806670df37ef9ebcdb, 0x5420482a9b16cb9fb9ebd59684a6687fc4a224ec4ff46485cf461a8a4b2f0c01, 0x24eb52bcb6ea6bf90d10e0ece70cc5afde48d8a4428ae2d7becdb3c88587ad64, 0x3a0e23e853a8e41695455cffb4221e44a2940443e7384e836a4c5df8dd52d278, 0x694c3ececd521c8e3f98044637cdd52894c1df03c549b8e8c08848f8c301742c, 0x261fb30aa90665d97b4cfcfadfb4928a0ee2023827d9f92c87777381df0e972a, 0x3b103b0daae24c66c33387991dd1ed6065f22be13df6357cfab05811d2a6416f, 0x3a089a4c0bbf4ceea3998d79f3f16c00a4b0014ac4d3c9747a7a8997c614a3dd, 0x3f8503c3065e555e769270bf70985b142cc37713fa122b14c374d30b647fbfd5, 0x19f1988aa35bd63eee4dc8a55f4963acdcf286101131d91602fc76a098e8add8, 0x3ae698cb04c28d779350c9daa468038f4ec4c40b39112b2d0cc26e61054fcb12, 0x22946dcc0908366ecd5f4f3a5878426b3e3ac6a981e2bb1c0356e15e5acd2aac, 0x270db4bc08f6606ad4ab71c405c3bc3550a7b0b6c1d2bf5b829ec026463d22fe, 0xde6f47ae07e264f5bb3e03406a9aabf2c43ff6376ae9e9a1852ce40fd30ae9e, 0x661166cb8f6a3c02e8fed5ec89f741b4701d82d0407acc8bd1b758ba35bc20ff, 0x4fe739370dff2c654781fb9fbcf0a76c313972420769e535e51ec9be139e6e5f, 0x407f1eebd8aa0602a293855c572483ffec5ae3dbce9f6df4e5ce408ba7434e9f, 0x6a5e5936d05ad91f64ef6049c326ed0d405fcc620d308eb7847c77c0a8d6a32a, 0x17eab5591bd815efc8f14ae25bc21b2f47f06ee0a8b5865941d30a6f8f7144e, 0x33e668031f85df0707ddc9866634223443be196796092d7b3e7e258cfaed55ce, 0x32b29befe6c061a8c45976ee0f1f6c9a2de26c7967365789a8200255a4ef133, 0x3a534685486e94798d4d58c14536dea31b5fffb6c81f2d2fd98163c348a9edf8, 0x6de2c09908b860a498d643f527a3fd5da64ae87a9e283b6897d6a329381b3595, 0x8014d483c8d56d07c67f5b6ade400330b06ce99f47dfdbe8fdab350b4d20c66, 0x933069826109dc9bfa279f097b1385036d6b867e067254d3fd33a7bf3a8d7c5, 0x4bc8753c4d107937afa6f9f4670cde939dfa2f7d04a712275d48fad56bdb581, 0x1e3535f87d7f7eb114ba1aa471e6746ff695be7a0c073e517c9a7732563717f3, 0xbf143a701b5b9433164be409a3ba1cb7a7825223406245ce26cc8251b488c9a, 0x46ada43dc07e5ba08ccf2f8339c00977c2eb6411679b58e458137be41e47f12b, 0x47badbabdc297b616372e253a476aac5ed14e8071f98c8838cc695928be5c597, 0x1150740cd200677f290ee1038103969b57ee6e513e76e509014237656c606504, 0x6d4d5c0ede7a912fff8383e2026431347b814f96355495aa5ef11855507ee901, 0x17c507205507767a6d51ca3c81a13d35761ea067d1a6b88cc26d1fc140e19c62, 0x6e903d4c8364025df23c650916bf996f2a39bbd7f22a0946ed5ac94a5c7de507, 0x5a7dfe8b6272087d3b618539ba304eb161643c60f2f1b31aa08f414ab0b50bde, 0x23984d36f36c7c612ac0f994984351354b47f1ff21dc9fc6e811f72cfc406f9a, 0x7204670c43e3b52de843b8ea41787d877134f7d0678acd8e0a14812c5747f787, 0x728867ad5540b1101724649cf59dd5938d803154a2f2519e4b85c5ff453befc8, 0x2a45a3fc9669a962f43ccdec03023cfad0075990eb8af0a076e35955bde84870, 0x56ceb98220365f62ec9284ec76d489bedde62ef98b2d6e389ab5cba88bb170c1, 0x6b5fd443ef1c49428ed81e9f91919570625691c5c4ec0308f485c6d57c25eeae, 0x697e27eeb70dffc5f83884b59f959861f8900a9c71e4960d5b970b5adf947e63, 0x654b520c0bbf1ae5924a5ac5f603c5869dc2063ae787def863dc43edad5f4261, 0x5608b8a583d9152566157d775cdaf66bc1b6911ee7326a92d983957f9ae07289, 0xe3360c387d67bbce33a3aef291f1ca730d5242fa1d96a33f22b6b25f310b705, 0xee947417d22de82556b9b079201fdfb6d95f7798f5bbae0cf0b81f2411a3397, 0x73850aadf8bbac0ba7de8259be9a7cf2ab7c73c628dbb6a0e08e467ea26eebf2, 0x298ed4e6a6721f84b9d08fa2a3d2ed69dafcc3daca012348c2946a164e432187, 0x2b7a00bf2637a961ce9ee4df1dca4fdac8e39221e27fa652d3914e7af650722b, 0x12bda1f82338dd17235289188ccf84fe939735e35b3f9a39e1ff98df9f09c776, 0x4184e239bc739c636a3cda0574ac11d6a8c6227dc8c066a1fb5d01c4a8a72e69, 0x248690de5845a3ff316d9963b886bb5e05219be75e0a4a43cf14a0efc62236da, 0x1d64485b61efccb9463334aad563ae6831a213503ef87cfe35fee6ccffa40ee9, 0x6db6d92d8a863fa7814cfb15b5a8d0ff8a6d3735e92e48723e8ef7391434fd5c, 0x389603704c777ba77e420cf800d28ef9f6a54055983952fac7ab758af45c91ed, 0x31a5490be92e4573e177aacf9a511dad8b2d1d566c36583f9067b0a81ecaf2d4, 0x11d6e0067d782f4ce5b8c2bbfad5a53b6d1ef16c3a018dd4107fb3833abb2763, 0x32bd8b260411d5330e955861f5a40eff78321a53837a055395deae26f3347253, 0x159e7665b9658a34d62419f8f2278e0bfb535701d2a86599803a6ce7349ee1cd, 0x167400a882926ff7aebbfbe07b380afb0b5aa4846e89f8238bd0481780dfac62, 0x125d648c234c148cb66d9a6c094b47bd844313f4a46d0387de3d9b5a6c863515, 0x3336514b363976f649e52b6b0937ae71e5729809ba3e49fa3257caee821cb309, 0x665a3698f606c799a6f237b9d8d6953328b98e163794de21e591f4d1f89551bf, 0x65ced73dcef29c4085e57501e96d6928eaf972d05698c2fbc5b20638f6546651, 0x1570f0a032cd86a2c8b2f5bf01a6f43240820f0b5b0973628ca6b910361c2233, 0x4854eb39e6a55ae46781f4c838a26606c25cfb2365be4f50c5251d8b83fc1177, 0x247f8e49081e020a67068848376ac680ee49406d88a70797ee79f7a0e5770717, 0x119da6c24dc3d59b369df1f9737773a4ac7d59a2ae8f3d58e60b542612300b5f, 0x597700862d6270c80b4fdfe0469a6b13714b7940944e8ff9b47e2277af431432, 0x33e6d252b94145f1ee4eab87da0018e1088774b2d72a49959fd08f8c13cb0e3c, 0x4235c269d05d0501e7ca875a7750067d3c7eca5c0c149781be58d443276630cb, 0x56fb44dcdea28ad374d5c1a83f293af5dc0b8fe53384fc4876dbcc9b1107353d, 0xdeef8960eb6867027e78da5cd3a65aad630812dfe7a970b14565dce831add3c, 0x583a9ee2a76f2293d0e72e216350e141b3cf735f35d6306f930c38fa1df9cdd1, 0x73562fd8aa58bc7a3ae97dcca0fd157bf9cb7c5976e8cc701d60e0224cb12cfb, 0x2007f25ace1ce356a0ea014ff609689faaf32bc064f4bb19ddc965215bbe54a, 0x1b62f385e161f2d89d391628976ee17c44e00a2ea2aab989e7941726ba944d79, 0x2bf41f3b54ad1225b1af4c9dce403c2c4354a3bdcf5cb2ef3e8f2412daa209ca, 0x3ebaed3e454628abc9f7fa68a31baf867a18dd3b42a03f4082f43c4f10efdd98, 0x842e6ccf7df6d6658cc8be2eee5da1d1a075ee57f4f3fa6a9eb0db0bc1f618, 0x3be6a498e7c12774f41118fb0349477d925bbd6bc55be9f16e890e503d6bc1e1, 0x4379191eadd57e0ecc943740af8348d3fd49739bdbe7975064d55f373bf4f54c, 0x63e454cc87a9be8220762a22f99762be80a4efa12f3a40047d4ce670602e53c7, 0x682cea931217ac5c7de35507ff3c1550ecddf6e845fa83879bf794a86670dad1, 0x5d08a4ce174ecb6f9037d690c921a1aa66a09dd5d69a119dd0e511b2a322256f, 0x55eefbf38ae6e7847caf19229b1aedd30ddd5dfa6c918084ad34f99929992a55, 0xbfaa16067694b66518c7098d71b6787682bcbe36b6f29bde901a23ca3262309, 0x993f1ec5a4e11c6235b48edb43bd8d4a4a52a2aeff1328bee9b57fb925aae15, 0x396ce785cbd55ca5ef2bd83857742d8e1a4c82fa9580159743f882892e99ff7f, 0x465b46e3e0d0e9207591d0500b41a618189c35096494fade45a2ac81d109ada, 0x4398f51f47ed4a779647343d7b8563e942a43232361d7df31517988c03ab5a8d, 0x127e58ed5e4bc51ddd25f67cb30eeffed1c019225f85e2c55d864bfef9f45b9f, 0x71b07efea7e45089445d996e1a0a287c625e9d484e1abf996e2d8f22c29240c2, 0x27c2ac561c77c077600e3be0ef438983383140e43bc3720c8c5d08d84a9022c6, 0x19f37ed828f71a0a988c8036c4036623db89a5e765faf0d5f1760d44d902a649, 0x73906c4eae1f3d8f9374f81aac13fdcad09b3637e1ff0baf6293f0af7d6b68d0, 0x3cf64f6221eac852923e9487aef33df5394a89df74ab94336c2153beaa1b545b, 0xd693bbaaf488aa4d1c8967cfad1160dbb6ab4d9cf1ce214554d6e6e0677ba7, 0x35e6158db5f89743be5e00dd6ac531c8eaaf951eaf7f46f9a08ccfd6ee6e78bb, 0x1e516418d364e258449c42334c8bc0c6f82b6a7a160f16bcbd6bc8aa9dc95838, 0x20c8dc0b5654c5bc63b120b1dedf056a3ab7188b821e3fb36888599d850980a5, 0x593756230b7f386803fbc7f64a7687b14a2add00c0026a1d7f47019583ca9cbb, 0x2d5565414b5a54e98a3711eb01cc7f9e2116beef291961fe19e60ac800b9da64, 0x1e1ed15ec7e8ce77a557fbdcf1b481329891ba9a11b8997de462258317a86d25, 0x4439619c72ffe059f44dc91ab95203b850f522368ab6ed04cc53c6595f7a39f7, 0x6d2267a616bf9bc2861ecb9408dada423200207a3f9e1dc1cdf3cf1cee4707f5, 0x46a0a5ee21840b92b46daf0f84c646b9e9184c1e9eaf4b8fbd53240a8fddf632, 0x5f0c3a71514734241c199bc6ab9a6374cd55c3c71a2d72d9d52eab1201531bdc, 0x520054acdec720d654f676ccf14c41e3653159c0fa60bbc855675a774cb0ecdd, 0x10534a20ee549ab8cc260bb048a176c487aa4cc1602319122ea7ed662acbf95b, 0x22eadfecf84abc736eb9c51234fa2c9de61404c5eb8bc93a1329cefee60993e8, 0x6c6e9f153ec54b88e78b9005c30409446ca387fcf4dc494efd4718c6f227892a, 0xab9fbf04cff867811c3c7da10709c23151af6d470ed18f51095782ae07ffe23, 0x1ce41c116262b8666070fdda886d119721961ef6c882559d8b86c59a2ff94e90, 0x34c62b1dde31f4681eeef2bc15cbc96ca9e9d72940ec03b3dd7beb6bbd7d14c5, 0x6f44d312775233f0f0a0cb8ec63b8eab899a3072326b40892997b39de5d117e1, 0x36cc43f72ecaa4b2aad883cf6d69e5012103805cd18ba6ea48c3634c2616094d, 0x37b6107c997715a68941db2b9dc87533138ca6aa06357766c9c8e9be00625e4, 0x2b2c64877eb81dc49e038bb438c3eb43bc5bd9f6fef24109d27a3f6cd552492, 0xa306b657a2122399834795081ff3cde93d56884792d64f61f8d194fe80bca1e, 0x12f7a7745fb423d8c2ee4ec1d57d7c9053f7b66973ed58a09dbb99dd29ae1c64, 0x28c104ef5e6d4e756117dc2dfca68f38ccf1bc78d6db89ff7cb44faa87972980, 0x2fd00d3f8ee0a19f0e4e1c203dfe3c099e012bf09af8d1a310cf733115d5c4d3, 0x4ebfdb6731ff673f4c5e717ab4699209be20ce2b66319250f5e258998e9e0bec, 0x199f291b0baaf95b357b52eb0200507d3e82faa22d7f2b6c0a35b994574e026c, 0x5f9af3784e315534491413aa066ce94bc6b0e0bdaafcabd12ef167dd734ef814, 0x2b2c5a784dabefea3b8e1ade87a560757d9d605c066cc2d6738314affdfe81e0, 0x17684e26b88d5b794fd1f6eb0758e30e622e9c2ffc046873b6ae7ab617bac791, 0x15314e5b19aa49bf96daa4a21aa2409d52684eb76aaf9011851b90f0f5a71dcf, 0x1d291500dc8083292c1c470111d627fef4223071109b123d484a7f70eb01e272, 0xc8ec429003b853477c33605389d29da54af066161d6febf3b19218590c2c39b, 0x5a0ef1615337cff845e75f5a9cbe68bd8c5ff83e313aa91a2f6eb83212fddce8, 0x1fd824b209baba6b1c4855721966cac1a30eaf6611f923a3c82f2440e9c63af7, 0x3d8fd9a0745043947ed6fa59fca85f402864b6c8a0cd461821951d91c9dfdb14, 0x9834e41710ccbb5b27a4a9b334ecdcceadafc1be16d46314616678b0265bb01, 0x399da5f604f91bbb56ac1266611277eebe66ddf94e0ccfbb4760f096639d6681, 0x35277faa502ec5ac9be5cc0b364571eb20dfd91d3cc762abce2e26130171f042, 0x249c16485dc5b82ca4308d60044bd50200933079c9c2856b59640e74f05656fb, 0x6ce2182077b481503ab498bd4e4ec6ac8924ae1429e026d10f44a28abc8e2645, 0x461eb25f8167df283cfd1eedfa5c2e77cf1e61f790fa618c18eb85118180695e, 0x11398017b0f970d8ed4c90f0222fa55712713b43e72be1811d319bfb00f2b51, 0x18c317c7f92f5caaa4a734fb1e8079affab0def7079bae5082fc5a3d8ce53a09, 0x1a601a93589a9233207b2531c99f2ad9a0c55e6789dee2b652b26db4ac6a7c8a, 0x63891c43796f01e088ea5852896176240b3ea91989a74718a2fe12604e2c0383, 0x30d6ef7d0bbc1473e2e6f4318a324a2760b25caaf37605a0b19dc3cf218fb511, 0x4cb7e275c04eeef2207d1a49bfddb11d9653b8ec27a03d6cb5566a904136c315, 0x40b3726283fda98f2691c3877eef96b154f6af7596cbb03db4cf0dc1ab19f5be, 0x293ed037f159de255501105ac0cd8c0788453f608c64655b5583a37c80d477dd, 0x3b0119479bc91773a6a4caf19f6618eb0bff5762a433978d205596d21a8f0967, 0x234ec8d2c756b1edfe7290a1640fcd507517ee25f88fa26487f9244dc251afca, 0xa54f6bbbe1a4bb23f12246899a281171e5638b5932ab68c6abdfa7c940aca1b, 0x30dab6865529d569b244c445961f0f2c533222c5899b0ea4da95526bc581d7b4, 0x2667f806524bd5695c11661853214e928c1b044c56cd1f83afe3e71feec481bb, 0x29d349a6594ec4dfd156c44bba303d6c7884b1b68c6613fc3a48b310a4814432, 0x2b8bb22d25308487a204aa7ed9e7c40f1c906d78912fc8509408f7331c1db12a, 0x3873b8fc76fd82d3793170c4177b891a595ecf3f5755aae8c37236fcf8488036, 0x840db82e25548a32f95a319e2f12cf3591b1e403ff7c708b6cd64736d18b14e, 0x23ae438bf189fd05a8e1247b0442f556769ca3cb449d8783a6fec256212c089c, 0x46b6c14ec04dbb52f9671226b50f7d7dee5efd7aaf703f0cc5cedb9a99936f8c, 0x5d27e44f4884d31554a0d771987ccfdf8784ec7eba4059071730de67a2824a1a, 0x6efa0ab17118239b082c36dce37a33e34d9cabb186806dc7a090c093c336c08e, 0x1de2e68b8100b575c4dc0c297a1584accc0ce35d84fb2b8c62fd59db591a45b7, 0x590bbcae922c23d94824794686b5ffd1f43662e657cff3ca0fa0b9893265d89f, 0x4ad93988baef38694590d63353236fbdf2a3ca6117a75664e57666c073144da, 0x5a51af9a10b1969018bdd3072ff4f061a006522d94b2c0dd31d3c4041ddfc5da, 0x777dd2741343615d536303e838a56640c44da37893138096f42f56cec648fb4, 0x36ac6f8c3b1e12cd77d027301ef2807faa1f7634ab5f539985c461ce3455367b, 0x229f1fdec6e1b3fe2de2b142e43b94e65a2d45e4b8dc4a07906d07ad9306c44e, 0x44e723f7754e874d0b555215a4ef87c2884835be45234b7516a06c7260d33370, 0x12e58d968c6ac5cdf9549e1e99e35b56afb59d6567d5ae64e729f0d5bf514d0, 0x1963537fc2a52be7f0bd330592146b31cbd4c9446156f65ce851d148d869e967, 0x6e477581661695e8daa87fb4996a96e2cb61b40072defd5b7813442dd2ac3172, 0x362cd90c80f98ef52f245deb1b4728d25e688cd564c1c674cc213cda614dc72, 0x2b94a4bbb8efd842fcbf75a82249a1374ada09e91dd559f56667a5986074be02, 0xa751ac6859a06c4dd7e3115cae713ea83f6761bce3e0910656031a7d3cc47ab, 0xf97bb2a935a66583677442bac8447929120837806e685f4ff4d5a4b46de0ef, 0x55bec0fcabf9baeb14c3712caf88e2e6e9e17fb579fe6c493d79f633aaaec19f, 0x17837aba400a83ba25c3c57730e0f0e3d1176be031ba3213df07af00efe730aa, 0x43b123ed807dbdb696f178fe0b5ea8cb2dc0b502357b5b703554ee148721ea6b, 0x59cea0b476286a6fb149d21e1ba797e48bfc2627b2e44e325fe07668a6118a54, 0x1a872024c8c40e5214e44606cddbdcd280bd32ed32c743801f6f31d243390523, 0x353ebbd11f15349b3fedf13f9c75a89f03d3be3035df7e38c98f6b0c6d82c154, 0x29d28d86463d8fbde7c8bc988866cdca248961a3df7d01611db2baeea5b8ac07, 0x699e2b77386fd6a52fa388480c00bca657fa3678cd57c9ce83d31ce5a7d646af, 0x399ae1824c577e0c6e985706ee1911e8f50a486290333857bb6d4ce62ef97f87, 0x71c01ff1eb73527d3c58ce69645b5235971535bed2f91965f77a396a8fecb217, 0x469f8b1bca2d8145c2da17408e9f440c60c673c733bc6a0b408799aa55d3571d, 0x49813629377f11fc9cf08950d8219313d7efafc1f5112b8805095300443cb802, 0x2147bef02a9daa27c05798b83beca0fffa6966149e9341d80cc88c7bb6131d0a, 0x63710103b1be9d8d45c506f2dd3a5dc286c4addb7200678c684fd48bdc134ff1, 0x68c6961c12d65181497705d0491e821c8a8061a9ad0596e35c6502f71236f716, 0x228a5184f74830259313eb72fd4cfacde3431b9be076697146ca8898d325b1c6, 0x56cf4894f4e6e7fd97367c13072a1c38c7a34d255c75afb661aeb80b1708dd6c, 0x4f3a895a058065e981b3808b3a9d3a34394c952785c20dad6c3db8c78e8c2f3c, 0x61ed84be7f6e990fe43de6f92ee83fef0e3763e78539b39aac482cdc05b9bf17, 0x70b06a4acc93899a32f58bc6c788d71cdd7fe8aebae53142335eae403402f007, 0x3b37eb281530e5d51889936884cce97e3ae6404cc9145a5f691a282d15bb052d, 0x62064921b7e12dc58537db70e054d1d97c314ffa0eada9d64cbeae0a6403cd09, 0x402b81c1e1400b546637b191491856e77036f25afe4e479d4569d79bdb3535e3, 0x5ecd2ab4e5c41991d922f4b980b4703f7a5000145ee9fa0267949765c430c640, 0x1e956d44c43eab278c0a64b2f179af743bb8e739f076a0903c6f126fe7d20d1d, 0x6622da80ae7dff297d58b674ea09ea9db5586eb26e3bb8f8fb650838ce75e676, 0x3d5f2e523269f420441ca95569bca53cb3e2a746ec7e7be714de040253706af8, 0x23944054f306f367507094ae43facfe826c4261ed8c9f83d5cde1ca9daaba37a, 0x4f5c766f9627118951992d77dfa7ea6e3688ad7623c4dbbb8f4f56fb5b58177d, 0xd63e4c5278382a6ce5b67bbde792816eac7a53427858834aa60c03c6c40d4fc, 0x5ae011da118a84ce399d8c4410b8fd0d32b4809275fb817410b922dec69f9fb8, 0x4b9032d3e41b473424ec44d48d1a792efb054e85ba97c6645fe2b90350bd646d, 0x641375383c98ffe030339c10abc09a19e8ab1244e0f2a282a5706cf753dc0c44, 0xc8f901e2ffb89ed8bd0d04e6a0a38b374c26d54afbeff15bc3e99abe4454a35, 0x737c0a14bb120d3d4081226c0f08dead09f8f23ce0bab69762d96ab53e35e999, 0x1ec737febd21a4540a8dcb082b252651b7fce13e94898cde539f1399c6120423, 0x622e168118b277e76510180ad266970285b80aa3975a8913dc4da52817cd9b49, 0x7109949bd1d26782f5904b28289ea446eae33323a25f91917968b7813aeed33a, 0x435f51b5d9c5f33f6db9589947e29373238335bfd3a705f3285387d9963759f7, 0x3d116f6796cb3b7e25e7073b3261862fd0a905f7be52540a851bee3781d14771, 0x5868f62a2f87d1d860e9ccaa538222039985d4fa4654432a4e9477904e3cf53f, 0x33233c4b061c7234aaf299a76cbb0e9272abf5475e10daf02b27cc934e9b59bf, 0x296cc0e4410815a85abbb9aed014887e90212da444e02e72172008324f80476e, 0x11c7a4482f70b0a338dd96e79333039cf2992a5bb5721fb32b96892f05b1d883, 0x3a535ecfdab77e589f48e0f9be96ef823c69ebced2800541a867221db9ec814c, 0x53bfa70d4fa147a63c2d1f5c33e440c9acb09fa78874df7229f873a351ab420d, 0x6a788954e249de0da5d17f209dc8ce9194d582273fcca4e53f54cfb4c3967ccc, 0x628c902850e9d2523637362608fe3b9173e68a08dee6c11f2351348d201b9a10, 0x6634c21d6adc6958aa27dccb5b42c11e3af353c2eaccbbc7066caf71b9043034, 0x347943109c5ef0a0c093cc379a9aa22dbef5741f1e342078a663aa9b891062e5, 0x495b256ee82b98cfd41ba4d0749303812b33a2289eb65dab8ef325d2544312f0, 0x46a81e898b9e5ceef03d624e29b5e21eaed45f4ff40083efef5a5e1e9ea958ff, 0x1b3f51506049ca0c78684f933088330e5efdbdf415be1351a528faa1e150501a, 0x343b836599f8991351285af7a661830134b3cedd875acc261b9969d0f524cef4, 0x1709fd0bc9443006f4f02fcfabec1a44b1440d22c89440333d3bdef170e7e2b1, 0x4d576500df81031d1c82b39c1d6ec0a5e6c47c802d71130b092c09c242ddd786, 0x3a7ab856568b153238437994bffc07e2edf9c15ef7bc8c8ee6520c097293238e, 0x5ee50d5f325ab1f67eb78ff7a9522809aec0a464babaadb3cfa397116926fa9c, 0x18ca225bd81c9bc781ef8d941cb63cc5fcb90531569e28974421fdb2f8fe7dd, 0x235ce934bb619f305f70e61fb043d137d5549b47cf4f71740d3d37d85eb0b75c, 0x5dd8de453ff4d01fbfbd5d0be9c461123833540c5127775926accb81bc5f9e72, 0x10f50170c87eeb6eb2a01612f6b50ab298cb55f5772bbfff0b0498b29c0f3741, 0x3276798d81bd4c4ccda1ec88a36a2a6824a8974ab361edb72c3151bdec98bf2, 0x3001c5231e6a45ca1dec4b22dbca1cf6ee8ed7bc80d8a7081c9e61a7e13d19d4, 0x30aca050700128ed913acc80b3328dd48b4405ecf8b09158269a8d8b5c3f2861, 0xa804071c56e830ef6f8b909d08b132874b25eb4dc58fbe6df1a7d7080b3b502, 0x1f64d8091eeb7e7cf35b1f06b1d8e7737c98dc25cd7cd89359506023441cceb0, 0x611b488eac819b91d8f395d2a60197045b50a403e7363732c82892f55ec73772, 0x3807a67a67084919112aef985c04b9d9dd1ab9324ced8c9b2d11bae05cd62684, 0x61213f2f92d774d41945006a40a56c5d3ebf04f64d057aaffd4bf2e0865e3d4, 0x256631d58cc39c3fc83ed2aad8d8551936f4a89f48e92f7aa8654017269a6e, 0x6fc799ebcc1479deed60bf5b334369162ae64da33322841dbf549642e4e1d2a8, 0x35051e79b7467701944ad755d5a342becc0dd4f723aa35d4265965b669cba5cd, 0x3a3f40164611eca7e93062e29b9f862f13d78f5eb84691c6f276d9bf37879c41, 0x19af1315cd28ca62f31541549c49e759362576dc1ff6378db5a7fb0794999dd9, 0x41715418bf3c875f6122d8f44547e37d9e720ebd8e70167ac02b6464ce0223c1, 0x217f2c761d0e45c03de80dcb010567e09927bc4759f0fe8485f2dbf41f73c57f, 0x4a2aa45802cc4750430aa457fabe62502ec47520f842c304d05c1683374c3e95, 0x711fbc084e0a4537e50009abb0971aad745f2b530c82dccf52d9390937e81290, 0x46ad2db0c981db5b63a5b3ba0db7a2b53b07f8ae98abcbc3c1ec12e9172c004e, 0x351b19fd79219c5728721c2e8266493c1a684360403c115bbef4f514154e29b9, 0x491ed1fa2d19569c3d0aa58e2eb255e459de28212d5c8c49233cbd41df877aa6, 0x119643f3bbc4fb4be07fbdf2332e9fa1cb8aa32f9a521451e0a8d32952903726, 0x28c2d63e979719d8c2ff8f59aa4364f8e4963bc51fd273524382c2bb3bb88b23, 0x26de2732df224b3e828d5c9bf99a1b201d5bac0d1e12ebc79be809a397156034, 0x503a6431dd3f5485ea78760dde03fddd002a1b32c78e580ba8a4a6801fc6ab4b, 0xe3b402f37b6623b4ebb6404e5ed618fdcb042e1792d874c165878a981314c5e, 0x15e92972386b2fd72fdf5d124f45d85239d9803da5bd0bd0d1bd520e2a188450, 0x3c5379147fd7a41531327df11a005818a2c10638703bffa4c76f13d72050f2c5, 0x2bf715849b3f903f362e7a2c514260b361766d9be3e6462436baebbc11f8d00f, 0x3c070b3c070dcd802e06df38e2e3d3bcdae9e55840477edfb2175375a54f7d9f, 0x1bedc777e1b1e972a063b4a4367d126bdf2edba11981755e0561957384bb40fa, 0x2cc4beb09cbccf1a571e5373350331fe2bad3f31f661ce8a0a0c05da1e761083, 0x57d1ed562e8ca63500ab0e7f51d4ef8241ed6251a3c6cd08dd16b64f2d5d8b2c, 0x36a83240bb68759efb718379d8eda584a85eda044b92682adf02ae72b88f2705, 0x102580145b638f50711b516622ed64afa3ed71e7a412cbd02b10e6b7198cd59, 0x373e415fc0ae13aea104af1f861283ed9aa03315b6d923a129c64354ba573d34, 0x5c1faa31058fb491b241bbb61c621e26cda99c4dd3a9443b174c47df2311ca72, 0x1d9564699e7099fa1e846a48d9384ab4141ca3eeaa78a443ecf3d223efc2a60f, 0x22ba632bb9e5c68275e766a55e60199be87227a5b452a464365d1f76d81e3557, 0x1e69a2f46fbdb515870517316eb65a20ec1f23f78de8865f78235b201120c085, 0x5d449d82a81fb077d31499bf9db4a0579f0f3cdc701058a1c8696f58ae91ca32, 0x3bb25f5167c03f3562b1aa1f83213fe88dfa6a2d0641a0d8f37826a469dcfb66, 0x73a1fee26a412a12475e05bddbe55d1889b9cd61a1557fffe027c613a62cdde1, 0x5f4a5f88cc1f49e518e327c7c4338777de0fa0c1cc3cd2bb670711d3dce39939, 0x69a071c244bc2f0f61a76dc198f14ab0ff5ee67f2f7b4c12f696cede65d0cd0f, 0x6b668f2eba757f9c83ef5744c0169263bf2b667db1dcfee339af33c6bdc76f9f, 0x407836546f50bbf0f2ec3c41e31baceeb1431096cc3d95c020e971c6b936b764, 0xcb45774602bd7fe0b17ebe8e84fda4522538e6721db9669341c4bfa64a79f57, 0x6561636c4ca8ab191281da1a57568d0b72c11a4deedf0d7a07f822076d66adc8, 0x464a55b16f69b0ccf4d0c8f46171e85fd72ab1db7eac937575c7d7b5066d247c, 0x4c8937d66aa861f3a933a73657ea72e1e883260ebb4877e4a5756a8c8b1de8d1, 0x51f1684b0648a16f3924017b9845af62fca5d7131e630fc2b832189854b87a56, 0x163cb94f862233079f4bb4e25e65c7ae8c99ffb433718da62c120d5c02f74d3f, 0x22c33accf300aa9006407396da9f740eecd31f165304d0499578afc5ce5f8793, 0x53c474414b259d4ef0894c44644ce8d69a728aa759483ee5cf1bc0b7ba50e465, 0x6289631d5c48ed2198ee53e496089271b1ca7ce3f87b74858c8441cad84efaa3, 0xd6f3cdb6c491f4b1d7a499e3cb3beb809c84707e273c32657d2856269460b39, 0x2d7953593bede586cffb55781ff1e1b051ed72aa89c7c6ac4e6c6d0ee28778fe, 0x4ed432b04828d121e2df0a036a7fcbca4bf7bc9bc78025b336d9f9b5f7039d7f, 0x798eb02f17ed5096ceb29d10be1207a24ddcf002428dcad7c700195c1c1eaf2, 0x8bf619a56d253c28fffcde5f69c2da4e176884bdc3d9ac18b3de1fa33c8507f, 0x2dc4a90ef72bf52a6c4cc1b85cd37caf6f9f4e0c3564c73eb84b286e0194fdee, 0x60aa7d37f3baae82d694bea6333b37a809e90ba387894d03b635fbc2791a2266, 0x221ab3166ea42edcd0a1f3b6a3757fcf210734747875c1340a40f29ab2fd853e, 0x315fa1c0603177bb6adfaa9f6a3249a247b37c390133ebcb4a0a2267e1832b70, 0x45565b6d25f9d89035f682bce02ebc379e0f1c97b0e0f7ccfc058c23956405ec, 0x4b44237d5482b8a9cd81fcac9773b3d952329f1dbf14ac477c6f42253a9d19d2, 0xc51600aeb08622463235dffa1c776cdf4e131ee3cacc1e0ca9100bbee72771a, 0x8f53608ad4f05a0540026694899ffe3f6ff82b2addf4c91d761665e5d6ebc37, 0x219996aa0188f62d3e8bb5491b935a2fcd063fe6e728e0fdce418ff141053, 0x69e3556435a3222c76fe650bcfe1edebac319d2247e8a0174a3f086c9210f05f, 0x27a466515f4d6306de7d28bf77cd4af234f8f10a7178fbc2fd3f93197205cc7f, 0x25be3fdfa75e213848e124b119cd5bb24e6969336b7521235fcd891963429f58, 0x1cb02652695cb678d38db5afdcee1fbfcaaba4e58a62a3fa0e1bb095397a388a, 0x4d648f626a2874096df8650ac2622a1b7b88bcd9a9efb0e4e01f857d8304c8bf, 0x33dfa85b2c7d089f10148826b59938fb6ccab708f12a2a5d67bf6ed66bf88456, 0xefbea6b8f2ee7adf58e1040ea6c67be69adac206b2bf84e552b3f57b0725d7c, 0x4c6eaf7a8ea2611bdbad69c23157153f80f708974bdcc146b8b128e6732a0301, 0x6b6f8260bc6fcedfca4ddbcfdec63612d5201ee6ae246c6446ffa1ac433d064a, 0x282c560a1380ebebc8cf569cb6098c88b82ee2967c8b80723302ca1f7835b218, 0x2ad86b9c24c3b5503340b70b828beed9c36b714dd6d42f7d87c8375d3cf6ffd9, 0x589f411f5629234817dbe96e546d967bf24983b0f458acdb87189e861b78b957, 0x694a39ed5f8e5888b48fb06d2e66d21c0629210c59c9896fd19e94c2dc60be30, 0x295f6a3233f99ef925499b1441bfe8c5834cba3f6a9b3776d5f214ff6551f8a2, 0xb429b698b016459a14bca56ee0e8af49efb54c74619376ec7aed7633fa2db15, 0x44e360caaaebfd73f3a767bd415b417ee6f25b0cb3e325a9370c492d87adc706, 0x25e51a3ab638f6571b7dea11e1014807bb08af1826de8e3cd37e866b6baf118, 0x48d3f3772e8eca02e9efba40a9167d8278ff5beb15c3c2c55da788ae6bfd5dd2, 0x6acab5dd5b83561a12a9a4d89df41442c89e2600a4eb9f65a6323ca37b94e7c0, 0x5c6920d8569fbf4e1463ea1537d859b7c9cca6e8c808ae663a932195ba1a20f6, 0x55b1ca87542573b2d125067f993751330188f215c8d7f4d21d7a7e88d40bdf4b, 0x5d1b138f56f4ae5ccf4518eb27d5702a5e3a254854c049d726b0462f88d741e0, 0x4a91b0cad3a73ee05e3cd10a79ed9ab184745e60e9c87df523c72cd0ed0966bc, 0x1f3c09e71123cc9a79e94e2db12f2ec874c7093a1e5d5529775b4a0f5817baed, 0x47b895b1fb916ad8f1db256b8ee7ba47e7c4d909f16f94edebab1afd5d038c6, 0x1fc2bc1dbf91740a7d2ff308c7ccb44434b5307ff9c949d47133873d63bcbb5, 0x6b1fb46ee8f1e5f8460b030c374ff5d955e55c26fffb89d3e697060bd059d5ef, 0x2f06a028d8031edb61a6236e40c2b11718bdd83977973b2fb97e413367349f1b, 0x1be54d80847828f319d6179182429da55766332def73cfcb77f090a7dbf14a17, 0x5e8e81e1fe310619f5c38a6d6f3eb65bab3944398333e06e1054e75ce26bbacb, 0xef2852d2a448169d8b7251db676eccd39585bd46851b4efd2700c2c67f6e98b, 0x71db0c5bea46781ff59e2035a11c6cc0fe91072482e68e63f71fea5ee0fe9021, 0x387ebe5522266254690d873b62052623287e2b9165a5243a619d52dacdfab010, 0x16e3ff53e4461c94d670a4bd27d6f4541b501beeaa77af9034da20ff909abb0d, 0x5105eb591571595856ada6b3e7190d3fbc5da01ca281cc37f69e5bd0bd818199, 0x57c4ff9c2b9f9f88e9ead6011c9c0ea6f9c79de0780f3d3578157e8927b0e692, 0x48119806d0ab6e65c61a9b6f720878a62901a9c0177d45fd3ad71f2ba6c8e248, 0x2a5d5c08ecc02bd0f67d167e725969ec861805a911b01d2db52378c84b5aec79, 0x1e8eff2ed4bd5fe6351aecf6bb137e1556e0fc80589cedd1047b353b9ee999b9, 0x658dab3bcf1621aa516ee01a040892f2f49a605df672e36b07a7d32e32ff45a7, 0x37ed129ed90aa7e57230998c1de8ab5f2ca93d723131c74c23fa9bd1a11acef9, 0x38a13d44750d6ad27b8de20b9361333e1319e1fb04969386609ae14ff9390005, 0x4903bcd012ccb57884bdcdd99df18e7e9635631154e8a6575c477434cfcee154, 0x38cc644142cf1b691dd487867be60888dd45bbfcb7d0e157390ed7f0793ff252, 0x6d047eee37a87efa3c7e9c8ab9f963e0b994a3a5e4b0079181ed82cfff21952a, 0x25650b2b511b23445613a73c68d609dc5f838cdeaa92d1aad933c48377ef6842, 0x62ef62fa841a22b2e6860ee5cd53af76a2208c0855933dcc1af9831187fe49d3, 0x317d44fbb17a7078de94697a048ba0482479186ddbd5e20bc215cc8610f4a687, 0x3e53d392b942cf10a5adf0d536b5a3730e6ad7a9a73ef90b82adc290a01a56af, 0x5ed2369f21e6b5b38584848bd4f1bd3feac9aa5fd158e54c1f4a1682ae92873a, 0x230c549cfc935531cc0b812d836436213bcc6e0d68ad00dcb874e4a7394aac1b, 0x70abb903e2077d9fda8a3aaaf4e58086462e73cb5711b5a0e6035659469ab9c0, 0x3758b57cea94d77afa4284a9707e14200cb512f2e4d849ffd50f4f1ceb0fd0cb, 0x23a4488cf7893e595b4dd86da4206d29e0ff8aeccff92f01dc04f8e104c8dff9, 0x616959ebddc8412cd3f00f00a650df88d697ca23fd635f98dfa44b93fe816bfd, 0x5e450d92a58724594fa8087fa3650376ab196f5df6eaa216a126187c9d4bb4b2, 0x57ce6659c9dde874fc398e59014cf92cbb3529e2dcdbb7d86bd06e87562a2b28, 0x17e48272584f72699b44154b178350b94d1f4cb29c3ce91cfc622f466f6e0c0b, 0x2c02146b6da3251da2e7a22454cf3ab083fc631fb98eef4f6c4dd321dd0ad133, 0x1d76b33c80f6216473d3fc970de8f568927dab1036ab2727c0c55c03fe1a4de8, 0x5775817becb1dc77667c8bab8a739c7dc07a63d93cebf0f4c59c9df32209da25, 0x40d5386c5aa080cfca3d3ff5b691e5972438ed6d4d0df3ba104d3e939c394d18, 0x15d206efefe36648b33bac64c743c535d9f33329f955b7a894511e7c921bf1f5, 0x418e5adb51a24a5d11967c316d06a5edfe43b6b569bad0b7377741e32aab36, 0x12d03e9182f90f79429d8eafa5fa46b177263e69c6fc2fcaa231cf5b9acd5b5b, 0x3acc9947b6ca33854ab69c99985f2e86aeb0be146b735d0b2e3b6f37e78d9d16, 0x1542fac13d7ce260cfcefd42b39ce2bb3fb1c0e24eb524a4255b301afa716f98, 0x1e9921d7fe4083e13914c569dfde94895e513f9a6b2a6a3f7f76bf69bd0fc55d, 0x1a22e3eea8d9e3acb2a5d3db840f80c61eef57c7c3e092abe14fd11b1ef40d2d, 0x15e948d6c1dc68e5b813e0a34e4ba5463a46c4c1f82e71bb8bb521a6c0602e43, 0x8a2c4e5bbba32c3a4d17f92d83e0cc39ebdc6aeb1588a7b8d94df5296d663e9, 0x2fd578b7de19b693cfd02952510af8964ea5bf9d7e587d2e413e1096295b21d1, 0x269de19ce3b4ae2521541ebbc5f701f9daa11f59ab3b3e71da1fc6951c8694da, 0x56b76fe0abf8cdec576d035453e9f98e71d2be2e614720d048da18fb0d043ede, 0x273f55f332042e5a8e8c3e3d1847754516576d2677e4fa1a9b075bc8d6249ab2, 0x4eca7bc7b064c8fb19b4b35463323ae6be78c74d892103652b479c9f99266212, 0x548b740e13ea0da6416bde0c58e4f3d44d204e58a11ae529b843210d2ff5e8c3, 0x4ac346621e4b7b3bc658d37e2e42452662c13285499bc77b4a46334bdaa5349e, 0x4c7ad361efb6efeec23b25739f051e7770c8c3829ed82d63a9ed3264ed2951b0, 0x18a107787f4917681c78980c65763a9ce4748c8a292248a038efdf9d3f42498d, 0x1081e6223910880ca5177fe8ab446819c45594863939c02afb8bc2d00081359b, 0x2ee11239f78d29a6efa38314a06d280854e184e5f18259c27d9acaf0e2d0a57d, 0xabf7abc2149515f78d14d85e8bad140e8f455ca14fbe4e2230eababa9a8d178, 0x1cfd9f8557aa54bb21e3fd0a6986b24897c1deedca0023818dd023efa06f3b10, 0x47adc2144bf467491bf39e86ed0dce5888a536e43e9c54fb23b92851162a2422, 0x3907d54657e277bba5c2360b7d27b0ae7b6a64f882ebe5a5dac48c994b7561a4, 0xc3a2e63c0a221b692a5962de755c0389361fd784ea0542498c387cbf0375128, 0x1b58bb7f81e312cffb58c36d39014b7a05cbd9af5a844b9741a116c92440c079, 0x19291f83ce2835634161ec1384b2691ece2d57493eb9a1abae47b3d8adea7a38, 0x1df215fc93a3172606a8cf88eb484bb3f85d59dc629f145a2e06a82f16349ae9, 0x412f16842c796aebf7cd4c3fb3c769f12f7b42051624dc772f4d4955a8ecbe5e, 0x2c0b3dff6fa1cee0c68a6796a5a114f9474aa20a11f9637595cd555474bb9350, 0x29d0b14b4e16e94c65252228b33083eb67b1a0e16c50ed5150246128d5b75aad, 0x3b0608cba9e31cdd1ed3efe6f10b2b04ead5a8139538ff0b799cd766f7bf38f4, 0x2a5c2ca39263027cea5b8c00d243db17db31400713337c236956598436f8ef35, 0x4eb280616f27223e8ea0d7b03dc5e3bb01c358b769d584f5d02c6499aa12f5c0, 0xa421c91fd8be33a34e1af15c3aaa0ce65bc72776de87e3a673fd5a50f0f35d4, 0x19645db2e1de16b90cca6ec3ba9a5ccbcc9cb5f9fbfaf717daf2589d3efdf8c1, 0x51c20f95ab49330406529fa041ba41d42e01cefb11b6ddcc4c638bc55c90026f, 0x4a1053cd2df088723a110e757a7102171ff6b0af29877fc98a4911b992410d56, 0x2dce172eb20cca2e872543106b7504561a7855d340097a6092b25eccb59d028a, 0x3cd15331e379a7911113b18706989f4e33fd0c4f10e11fb0ef8a0a7f06dcb436, 0x5b299282611dd64fb9484fd9c69767f1e337abb687959a70dbf5b9fa03711176, 0x6b4541ac5a97bc0017baf674dc2842ba43b9b4671302cbec3c624481bfade653, 0x23a78f6e03da61c5e4909b7dd8e326f6009e1373f904be63cd6d90cb00528a21, 0x6e63560cf2672f6939256219e8e2ae80626e1fe344edc3060af61bcea2a697ae, 0x22aa4ded38682c15ad438e0153292be2b414cc9ebe3bfeb0f874aa49bbaf53db, 0x42fe3f8aa131378c9e7a2c5c2cd312293fd4f4808c5b7456e3228db778976f94, 0x1f2a930e484eb3fc96643fc3c6936aced03276a31a7d1cf170bbaedc581cf472, 0xfa8403bdf2a7670fa78702b3a10b8918b5fdb7ccda0e47d615e8f0d39f0c929, 0x1327d015f7c311019b601a919600053430b4b303dd1c6436f3c92537989eb7cf, 0x4d19099eeaa5363cf6f63c1999a7fbe8bc0044fb70c63586defe693d37cc17ee, 0x66b08aadf05e0d5c0d11a544676972b9fcf6b59fb693689c19b8360f6d1b3e5a, 0x98a546b6d5f13e1043879285f0084f9f9e97fcd88985e389041b2c6d947581, 0x35677f9fe57aab56f77546fb1c24c97c0608f9b0dacc24ad71fa0fb915d563b6, 0x39e30a9537fc596ce7ceecf8bd328f93cfdc152a25e2b8309f667ab209fc759e, 0x6c57fb270529a0b49022951d696744652b149478a15c914f637b2ba01fa10ee6, 0x31aba16b3352fa917dfd8e7484a1b07d85d5d31e17df0872f2f0d34accb82373, 0x27047699b6e5e1c5b3322e12aec221770a1d006af8b9776ccb60d6a3406ef95c, 0x135857c4ba79cfa86c7b8b94e73931f8f532197405f4ef9da6107b9b630126bb, 0x237dc929aa865bbc793694b3f02145def21c6b09487cc65f2039aa1876da49ac, 0x48b4b279164eaf0a7ae9c4f1537475e087be84db7f56f944810485af3139cabe, 0x66cc55549fed497726a5c8f82d3afcf591034b3f262d55121de65259890715f4, 0x5897a0fe706f7591b26aada5d19716254d41a7ba7ec92016d44508f7b9adcc07, 0x4b1f1743ff9413ffa1b6fc660011f305e07574a46d53336aedcc3594a06cf0e6, 0x14242f895ccb3ade2722fefc60b1320393ef3f51f528ee0ab2f24d251f4778b9, 0x3b4881458005dabde8f5da83558a3016bac9a703987b1ce5346a52e6dfd39a08, 0x2d4e34f7df1e8310578eb91d0fe7a6066afae7ae66bae2592e4ab55d6c3b0f24, 0x562fa179872d5064cf76fbd79ac003cf3fc55eaadaf7004b9c31cbb6cfc997ec, 0x8bd25eb7952f5b4759b331b80bcae668be4f0aa297e8de54f1cc55a6f3e4c8a, 0x282cfd86975e9d6249f7a74d409f064e701b11277836ec33c080d19df9d3d09, 0x24b0854721c9cee6450011db10811bd018c88ee0a45ac8e40c44e00e93e3ef1f, 0x4b78353a98d6b8d754106fb2178d0ad1f1d5c7a467ccd1a7134d2b3e47613c82, 0x609cc540ad43a1a62ce3ab78d7ca8869eee25a1059540d8b1a1de2e3728763b, 0x2c4919af3454ad1c01500792cb78880e1f5fdf60387590b60332ae3d1829ff7, 0x6f1f0905fecc291894bae32569596b3d912f29572e47bc266e37fd1629f2bec5, 0x3e282917f429595b42323ed43c3946deab9872d7164da4ab50f9de33d6eda979, 0x59de81ba93dab7ed815baa6dbd0ee81fdb3e4be4523a3e46eb0eb99244dfab0d, 0x37a5e093497731238e3873ed05f4e3fa5f5258f7b38292705c9580248d81c1db, 0x3a840d7a7357fe4565aa3fcd6a212a0852235284d1a337d604a83d2764111600, 0x428d2e939492115c07ef3f17799312df174f4e9f70ee45808efac3be9b4d35bc, 0x27e6118d7623f7b44b1a3950e16f21bffcd0a51c7169b9a3ad5910e3b354ecc6, 0x1e7774556d0ba4e357ddd89a7d824e1f68bb05e58049a39641f11173bb4f157c, 0xec627fde690c4e126d4acba3c718e7388d080a3ea15be33c718726d0477a707, 0x3710f78ace8493ebba1d163de9e10323a3263866b5dd8bdf094ada2e433b4623, 0x5c417eb4473b5613fe6d1b27242b88509c2de9aa5de5346f8df2079059e0e505, 0x5da02ab900aee636769286326ff02eafcef32394a00ef04ac01cdb8955e30e55, 0x87f9f21fa845db89eaff2444abbdd0a25c37e2d60ad6f62b7ee0c3137021ab0, 0x5c0e00b0c943cec8adb58e4b7da4fe4eb0ff7234d93e04c6e4299c80fdbfbe7a, 0x27d23aa529904c5614ffb140114bccad71c1d38c1941304e479a4f6dc1539974, 0xbd1cabb86303e6c3a01fdaa5cb80f6a44837416b9a4c1b446e0bbf75a19cf06, 0x57a1cf485e89f92efbaf05592996d4e524cc18dba35e598fdc63b5c524017095, 0x38df58bcb9a6e56994a56288822973c8d9e06e2ab39fda5e4d71dbbb95de68ec, 0x1e2a16ba01323d65a741be7ccf862e521be86c99df9d9afed03528bef272546, 0x311f2539ae88e63477889488e6de2b0100f40655e1413a52a1606de8ef47c522, 0x9053fe2958fdb2a6d39a78ddc186f31230079761b1adf21d5a04ce5a658c3de, 0xe1f7f98e47140e8a5f9803be1db03e55c5994145ba5904f0cea8296e0955c86, 0x165ffe4487dcdfa4696295d68ae0355e52b4ea6e5d7411c088542c9a963761c, 0x6b6cd8eb9431da64aae2f330355d33f3bd6ba62bbead758478e54f5f53e14b64, 0x6353b340c04c1d7d063d20900626b5f39c9533e4fddfc5c840cee0389fc4ca80, 0x3e5df91cbd28d9a90f922c27ba47baa2a9bbec55a4b00580c6209cf53cfd613a, 0x6cc11093aadc85c359a256be28050cd31eca5f64c29268042060c934e8ac34da, 0x1162d1b3985e916df2bb71c13ed3bad064e2f458b3ec0fc3ce8eeacda44a800e, 0x4971c33572b09637c6da519526a717f83a8cc2d7f8119fc4bf09d301bed4e43c, 0x1b9ab8e2f3264f22b1407dc6c5367cb29219745d214b0d6698fddaa6a57f51cb, 0x11541ca5f0f78316b6545776eb69f55947d1771b9bacc7525af3db25c6a52b72, 0x3201f066a93805cad686048f86e1d737b5a5f4fe8fb1eef88edea4cdc507e712, 0x5ad815b79f15ab15c7eeac146834f73d28e72d93bd0507ea217caa341280f6f1, 0x5057986d7b5656be0a0f2f0c095858f4fc73b40100d60a25043473ba6bb01f20, 0x5609f5a70a94e5ee5847e827b067166e1507363226410156d301489d94470646, 0x175a329c043c3468a2b1796bf5eb7acec8741a1d47e902f68ef452e41a8ab4f4, 0x5c247356fc1099e2e3ec7448b64b9fdf104ace6692730b51309319c7fcef05ad, 0x364f3c0ee31f5b889f4ee4877457c3401cb5585bf5f050c66b340c0b16c1da44, 0x419fd8d04a4e1e76ac523c39a2e9224c6167bd294a157238593f76c61632db38, 0x22e4c116c37a09b6f6b28759eddde18683f2e139878dd446bf8d006d4f55453b, 0x136e5091007c9cc22780e6f1e1037e6e4704d29ddcd4e86fe65514f684a3188f, 0x4e79b4012aa182493f74699bf5b0ee6509e4de30353223c133f47033c2d41e10, 0x64701d27fdf0af40b8ab80eda953dbc3fc828d3e03bad4144fe2f0537d6ac8a5, 0x11b10bcc76bc5d7e6312d11e8cb09fdac74ac4a272ab87e639ddcae8ef3f490d, 0x5a5f7fc5a40a901b33e7a6d102fe416de9619f2cd43082026c356475ccd98f3c, 0x3c8ddd649d4252935609aa73711248bc88176a947c2b0a56684b5d692a6f83cf, 0x50bffb3d208e8732a06fc6f5f6a98d1e1782426d397146b7993286b5377fff5e, 0x6caaab18399a1609bbe54170025b2e627c6b3a8adc7e53286a28126032993bd, 0x37e04879d1437817410bb3fe287b14e56cd96f999cf1e8b7ae2f641837682a95, 0x32d28de72f15881d413b23503be78b651b8070653b589f74d6389bb009bd0267, 0x9c8e3a7370d968dc9e8636cedbb9cae6f64972bc734c03d9743d234f5d8ef52, 0x24e3e8ec1b03213fd39e3b46ee401516e3f3e2bb1c8708b4839b15475b779fde, 0x113aefd27ac1684b666f6e61762e0ea9231e11fdf1728d0d2e2d44d3b0b385f2, 0xf258d0c36cc4bb93427f75715d364fc991861b6f259d67ca85f653df2b6a6dd, 0x58a2527e8dab1724e785d88ad58278f0e143ded80405b8c5f90871cb055a2422, 0x5c476d822201225255224edd9d682b91844cf65b9d898d69b6c524d614162591, 0x62be1b8e4d7974cc59b87d2835f5bf2ab4163ed26665834f8317b3fd24d81bc8, 0x2100d793aab9f0f3b4b412bf76ae8f6fad2828e785cfd7953836ad6cef6e3c47, 0x2b5aa52aa905c664d138fffa02ff54398a1a6967daf7a61f5666e1123f66c855, 0x5deca6e5f3c520da1e10349b246b80cd8709ed503bc5a6e6b52d54bdc37ca5de, 0x62161ae8424e14c52325f9102e3d4a0ca30a8a4074787e66e92cc637ab014b58, 0x4a469a0fd5416f9c6deff4ce4e937585be2cced78373722e4b0d2de1a7737e98, 0x4bfc02e9e3eb4cb88b8b3a4656c7865dfee42f78af900b396ca8503a82b2f7aa, 0x2bd97682303841ef63067bdbadf1030851b65e8d13964f56c1e736d5c50023f3, 0x2461a54fe5131b8370b0a00b65c953c9ed043277f68d49612e8030026cc4030a, 0x262b2ae762dbb51585a4c7901166788e9f0ecb641357f50a66ea33f31e93ee68, 0x5f1c179f2bf1578d8339e9af55a5e5f99d7cc8c62f6ad6059a981e95567b024, 0xdefe5921329ce9848d63b28d1e2ecaf1ff1556192628a1cb7e9c2569bfd2092, 0x4c01ca38bb97c2797fd4d700cbf854809081cc629f6b6aecba15e73218de2ce8, 0x70abf7f307418b30ec8e2da7f5a3095af6ef893d9dd1e18bc1b957ea3128a878, 0x24c7f03e8f67dca54d39d9617ec767b2698b7e27f641691ef1c7d2defad71bbf, 0x3caa2374707ee9e925de8866be911e0a45b63ab0ce4e65a375923ce2b1972ac9, 0x56bd94c04957755b6d22e68361e55d0ce20c77d460e42c2e74b0f93d8b49f704, 0x3908e1a247d9d4c8d67ac49831e842b650bbbd976c9a9be2c39ad6a3b2efaeb9, 0x5d69afa06142dd4f1fa4f39b747be315576cd0425cf3adb4a969cbdda2735441, 0x1f53769bed87ffca38780da956ba55382c764e93c1a9e6e9062c590570f04ed6, 0x35d21bb1972fae4af9e46a10c2b58024b51e1b0590e132b5daac69765c785d11, 0x4031bb5b5d64f3996a3098ef5430b3fe297b3d61d3dd62554ec1114f65329295, 0x5bc7f9ea0243ad0b063071f3894fcbedd2ff5c4187569f1522387618088351e4, 0x434d59795591b28cce65ffe9a3a617e177cdad0eac5ec4439d3f5406ac6c2cd9, 0x19c591d14fb5da5757a1580ad50ddfd616cfcf3836add5278b9b0fcccf910d98, 0xf05cb5c0b2dabae79d3e45a8dd9cd5d9d1a45dbf872a2c6d60dd0ba911b3527, 0x55e5a4d0c4c770b6756b8d79d3f8520a31e26e5f189bed0325573b15122225a4, 0x6ee177305845bf16a6ec86c9825b195201017cb80101b3d83707415d1ca9f7ae, 0x63c2cf53a4711d94d2589dbc630ef9a82f08a30255b522fbfb84318d27f65db, 0x16c97696e15b81a3316017aeab1d3434ee8a1662c6539198041e9caf69a276c4, 0x6ceda95686d7f447a3daa194487acc342b1c67b40f47069c3c79b2c7e132687a, 0x28475c4470555773c1ac25b6ff445c0cc232b9d888183d257daed7a805acc7b5, 0x5971769a004bd591a38e70ccc7232f62a488314bfdda810e95dbd48145b67138, 0x71a3a9a1875bc21e0d07be23915d3b2843b2ade115773a75ac14a6bef78af2f4, 0x367b022f1de70a9e99a95c36fcbe3c2606a2301d0ad6699ff09cbbe8d14b9b2f, 0x195c0d0c6f2f3f22041bd3fc11c89a0ce683e52e184124f614de2e8229fd020f, 0x171d03d502287970a19b609635914c5f4f3afa72fbe132c0a9ee90c0918d48e7, 0x69381dad7445daae6d671f2d00e0eebbbff5184f6b793c7fd528f771c15b7fe0, 0xec37d7c93ed90ca4722ead92b014731ffc8eaf23fe40fd922930f8f06a9173c, 0x525aafed738320d0800e79d77b9f5d0f42845767f911fe919e68fe9665fc69bc, 0x4f62bc7b3a59c48e6f5ade2bb5a730bb34c7458d9670fda64f3ca7cd3c0925b, 0x3d9aa36ddfaa71122e3675d4ba8016a84547dfb46fadb00b37a0eba51924b9a, 0x568099ad1c6d5f27db3b84f9f40a3735c39b9704496c9de19eda7958afcbc71d, 0x83a2cd4e783b1f99e6d054bbb89aa91e6c211b8a593d7e2c4c66c24c6fd3d18, 0x329249eab6800496931376a99e0dd6f5d328b47e447762c6ddb84232ab1a84aa, 0x24925cc91611f63b11f3c6fcf905aa40f3350b93eade4c62e1896618be5503b, 0x64f2eee746888d230c119e3759eddb58f2ab614c1b7a4a307f1057c01d964af4, 0x2a31abcf9f1f53b951fe5bae0aef57d8355a3e5792507a074b6f5cbcc07194a2, 0x11cf8750c19cd1904caf17f87be6b9110c13e294c73d476e3da95568bf6d1a97, 0x642a4ed0fd4ea08e5f1054729fa50623959347e44fc85f86f574b7e85951af1d, 0x5adde5f4080bd55fd2b611e269173b96c40baecaa157e253f96ffa7f2f744d92, 0x5ad5409292c9e72517b6c7b89a7f123ab93a3a76568fcb5a825344ce2444bd37, 0x2040b30bf82713347c1446d82171899346fc0784b46bc45f6f1d0338255953fd, 0x554ca09606f996c7c8dff13e0d594c9afc2c25c3ad21e9715af654da5efb9a55, 0x26baa1942367351cce979819ba2ac9488fd77c00117c2b8045d64b8b6c225438, 0x42d55810ba4d6b0cf962032761a31fc9e0d3f7843acb342dafceabf5ea2a9f4, 0x58d0090f0d78ad48394dcb40dfb3250ace429fc0cd9fe12eaa4780547ef600bd, 0x1e9db113e1db7558f65a59011dbc761822ecd22be1b506fc034de711add51501, 0x59e376e770927e19e1d10902a9f4d9183706ca2625dc79c7da04d29197e05e36, 0x4bf91987cffb9b856b08ce936abff6c0bc72f463a57d21111b34c546c2931bb8, 0x683ea43a98d838c9cdcd5de67b63ae6ed3aa1a38f72b5a294dfed9dfb899fd93, 0x27a26e565fb8afec9319d5c9f434fd088990f985bc335069e2d6854bb4290318, 0x36a33ccd1664e0ddd7975ec2eb026c4244bdabc1f5b90866b4317fab9201590d, 0x1f04adcd3d3969dc031a7d29c70d03f7b218ac2dbcc3633ce330165603c31ea, 0x65285d24ce1559ee7feb395d84727836aea0aaf846c434356ce518e68b2903ff, 0x443fc177283a9208c3fcca09973ea694934bce261d93c8e1fda47e166b43e3a6, 0xf6ff4f3c1822fb16d4d30ff7d4b1e0bb73fcfa989b9b68df311e4629cbab838, 0x2ae9f827cfdb2cea8bf7bca8708878bf56ecbba7e261674d2d3368644be27c1e, 0x53c3033f502311022b4812e26036288d416fcdcaa15dce1a44294d9c541126f9, 0x41ed8d85cafc2aaffdfa3ed7a7ce634e45cbe00147b1bfa7cf45e6b11f6b5bfb, 0xaa93c4f3d7624218c7024b85dd2a22e93155e3045aeb02f3c5ff6f7c30ccca5, 0x3cba784f764273e42532305a024c03fb3f6457facce90f854a2d9d6754beeea4, 0x52042789f3711a72473e5e0664bb220f27d46bb6d7f4035298efd14bdc36f869, 0x1578cf62af6d9ab83e85766bc471c1826bf32fcf49a4a202671cf4cda582385d, 0x40cea33dc709a854be1e2e034320e2833d388197a05083e7579c7a8748a0e421, 0x6cb831d3beb63bbabc1b1727dba8d79ec31d4c154ae4f5c62a4760b30ef3b835, 0x2ec0e9aaab1856d7ddd8de5df7a49b579162f4c55e53311b32df819f1a8f0628, 0x49d8b3c7350c10cde929da8b849511e6441ccf8249a700f5c75489b9eda0ec90, 0xfe8b93ed939ec67a2e2abc8594071b133d2f4fe513b10beecc135c23ec866f9, 0x1b4540ddd025761396ac184d28d620d35723176a781192db3bd5ebbb2b770b6, 0x9704518f4d45a42010ae09b87077e9f89d0c9b7a61cf14c0b0e9ef5c2b048b1, 0x18b8778ad64ac0542b28f675fc0f471ca04225d109db312cd2e8919d9dfbb3aa, 0x614984ebf812184e96f9e239421c79505b12d478985460e367ef4343312c8192, 0x2b2030bd73cc16d88651fcbfd47d7fb53a966232feff3009fe722db17a51edd, 0x2a7af0934e00915e7991883b86cf9b78f1450496cb9172556e4be8dfb517531, 0x4e1b20f35fa2be50a369839487302ae65cd87d7511b72473698aee760381eddd, 0x271ffa855aa6bfc9959fb46891a3f01e4a0b2eb913ee75dc3c99f1a9cc266b23, 0x502854d47be113aba4090a3c4dad9e9138d80e31f7c2131cd428adb69038804d, 0x6e82151f2861ec7768618fd94a7477b5cadd16038ce5fffcc6c7dc77c5c3ad48, 0x230399ce729a78c631867e24db82d431897a344ac14714b3907d2e4a8cb665fb, 0xc6d80c3b318b83f0fbbe1623bd305c79cc8283e521e160ab22cf3a09cc7b0ff, 0x6eac2f6de4410183b4e731dd77a2e8a277444b04f3581b12cd39071b4db8b214, 0x336249f32350a371ae33e24ebcbab7bf3e7a4c5361db3f236ad62d601c0b30cf, 0x24e857a9e8e694d2d333e0174c27ec554c9effa6a27f2d4a90e5277bf5ea40d1, 0x6326a40192266857699e5434d3960afb54a8b40979d74775ae494b929a0d504f, 0x47dd7dedf0040559a18428f3ed7422f617077cbc13d30e67cd534b276a96eb48, 0x4026e451b85700d656a8084b2533c64996d00077823b0a7671eaa24025764e68, 0x6a0b71d3e0ce9b0166944fcef5a006536f150e4246eb8ba6aa760dedc01f076e, 0x3d16dd22ff7b90856a3953bc4337464858b14442db2c420862258575e9ef1658, 0x67e3df29f7dcbe9af07877c018c45b4c7a45308d85e90a96d43da55cdbd769f5, 0x17776a4f0138d03530a840777719ebf1930448ac088afedd73f227c26d38d43e, 0x53cc2dddc2bf1cc3343dcc86f1b3a1d809daf4e99bb59a87965ecdfd946f3ee8, 0x310d1a0da05e63196b654d095b56ff524df9c9bb9d8bc312838395771f967635, 0x340014463a2c03bfca482a4a1fdd7aae558f86bb270d89d9b847b1ef1ff677b4, 0x15b45e4e5460f0d9586c8c8e1c9e6ddd24aff7cfd5212e4255f4eef4a3dc5f06, 0x384e2d4b1987d32a4a06ec1e42e78c82fd514a5c64b620e3c3e609d061633b02, 0x6d16da3875b1e85ab6ec0791416141fd20ab832d3a82726da5b27046bc05371f, 0xb251ea2667a71a444929a7404f076cc57444ef664af0a0aadd22e8b5af2bb7d, 0x68959200fbc2d5e8c5b7d16bdb1828375107e378b779ec2a2db28883aeedb7ca, 0x3b5c1b359a1c4c1305ec6c0282551d9bea4c93ac1cc77708d183ee5cd8a040f7, 0x330b6f1892433550a883d30257b617a7386b017c25ee5a7c995f144873b63fec, 0x24467c324bcc8bd64bfff1ed5c6d1e8841409f20923c83b6cdf8fb719733790d, 0x72f75f32b6d8d5da4750f180dcb4e9e24939291a3f0e0c646d3566abf50fdae, 0x26c8c57d4ff3f82e18f7c2a0ec22822da13c47ab561857c089590904c2c0e5fd, 0x3768df302e2fbe402ccfbb8d86fd3392c997c5b4761826c519a92704160c19cd, 0x255fee630350a6379681b60f8cbca0836bd2e22b1db8e0bd348c50afc98fa29d, 0x13942775b21f98b4713b1d548527bb5884dac22edfb4be9c2f4a3cd78104584, 0x26f83311e77f0415b5218e9d6d03bc1d35827bf8e39967ce545c36c972f5acfa, 0x577c2afd2b46c2c4502519ba26739f6b87cf787e28b2f994bc2ad843d94321f1, 0x2ad586d9752e23973e1adc3374456293617f6233caef09db80ecb278c9d963ba, 0x4c95e24387e6aa7822d0ca38db8f411d8fe041aef39738bcc11c93145a5603e7, 0x388cd41f33e5e0ce5c5024030181d1cc363470f65b988581a302f7b5b27cdf72, 0x5c47f8b12a552518d09c24f477d2f56e9f9bf3e1b2c733564522607d613fcc84, 0x225642d6be71c2ed0352a25b6d8ef12bd4c542c5a5d4b7968c839d38584b53c6, 0x3119090391b1432f506a39951c9a87803b1946b11c96e047de02976411100bf3, 0x6d21cc349c30008d72ed04767344704eac2843018d19bce1e30d5f07f0d56b18, 0x2101b3ab0e1fa6a3b438cfc76d9b1f048cc44114028b555aaf342176e2e3ed02, 0xf0f82faef61fbd720308c79bb43ba87930669a774bf3dc3f8161d787f48a0a9, 0x5479275ca8452f4b0c54eace9743a27adeb8888e9d633f75aeaa21f91b7a4f0c, 0x676a838567e8f72b092db51a9a013f23febf085a0f74f4af844255fc8d7b8fc3, 0x385f6c8762cb5a8c0095a344a4d0ae76008bbf355de2243cc463924b5347fb9, 0x1348c01080c0631d1c2f392b0e4bac86de40e6b201b3bea9b219b6d90b71a5e7, 0x3f7977c5d7572613d2f782549343df8b795484059ce4e5e15bc966312190a690, 0x15d7926f4827831ada1996f7769eb5ced832b46c776f59809d64ba9002381933, 0x6db664a443ad5aeba116d58edb1c3110a38fdaf4f6623646de11a3bfa75ec0d3, 0x1432eddf66009b42cdc20953912b69c7548045351981a0deed9234fd1744347b, 0x71f3659b5e08c414f140b68c97651760cc54df3354879947511b5d1a30fac474, 0x3c168148c2a726e3784cd7df5183c47bd1afab73a17855dcab87d8a59e2c7230, 0x4e2bb344b175fc39b50769a18830a192d5264534b8023afaa517b2f7bb8e99d1, 0x495539c10b4ce4188b6c4522e23f072e5a4c34df85d66cb6e98ded6dd0e556c9, 0x956285daa96cdbf0956f2f78980edfb289a64145a6b7d0af042e441a7a4b516, 0x266bade28d5e3aceeee0fc97c01b4bcd198e0a603e0b98f638aab8614e45f239, 0x27e1917ddfb6ce43cd204dc5b75c7ffd6fd416d1a1e4e0375f574fead3d7c43e, 0x1e56fa7a5f7e4632a118c25c050f3dfac57ad4449581adb88a0c78258902498c, 0x5ce8c715c23f0b0796650e9d1a55da0276629edd4a07a5f6d9e66c982087dd64, 0x3cfa3d5e015ce98761403b2cebb1a5ef7d61577b00e3d291ed7d89e252e8e1eb, 0x6633fe4836a5a3f514ecfe96949fd08a7e44a7e9d8c2365d88876bd6ee5ca272, 0x2be3ea8cc8c03005dde6aee958239d077fcdcac24d5ae728bb033085505a49a6, 0x558195fd9e9b98f4e70312cef61fdd071bdda5d95eb9b65abae308b5a1afdeb7, 0x4d5198904031939cfc9a951942b03e40bb7f3adc2220c143c05150aee9650ec4, 0x678adacf5af4d788bdde6c3f5ebc1f44ee33800cdfc4dc5d3c1386a4ae29a4dc, 0x5d19360deb36ca7909d4629331ec356ce62ee9164d37d2d4462f64b21ca6504b, 0x218065bfd2a0466bfc49883ec7e917f263504d3d21aef6f276a027625cb61037, 0x5cb88090ae6a5db196db6fa1cd8587e807c3c53d78c7da57b2b57e80042362bb, 0x53f74f023fe35b14cb3334dc4c189971e5611093ef37b6102af634fa4ace6e74, 0x723bfe206b931db0e26d263db66b9253521222a5f6d44d0beb480214c64ac273, 0x42abe61c529f13eeabb01b72c556dfcccd9ee8eac261e04c281422af4259a140, 0x2caf830eb7e63076a1262a81df18fad15d936510f702f8c46ab9bb3dbc6a626a, 0xbcb9e54e76a4780f6fca4631a8b00f00707e9aacf027ba6839ef6d846d0d46f, 0x4bb5c2d22c6893d50899793a7f3e1e07c0fabaf5cc53809d36edb0064bad50f6, 0x4482fd1577efd621c04e5ab0f7470c77984b6366866e8a95c66a213c8af00233, 0x4dd700f11bd89fa6d27571295bdf9d4131ddf9101ad2dc87a25fb472b94f3cad, 0x39717b5f393379a39b1592a405193c9aa3c6eae8e609cd2bee059c376f2d1a80, 0x72904638c9a01bd72851933183f701f543514c9f7b2be2ee9579888522c140da, 0x127d48d57a0d74af949db145b7ce31a9ce23d71dbacf3db008d9dc7c3ce022f4, 0x554ddcbe48dbdeb0f356fcc8eeb5f0faf58cd2dd084644fec0a6578884a8f3ad, 0x3325a9ab51773c6d6d244bdd82f0738af5772a8bf5601f14f7f9d72b510af401, 0x3ce5a715389e68a39357d554fdaee3392daad6e4375b642f9b32c6051658f8bd, 0x55a9abb35affecc7b7b079c81470a7af858c3e4db925603aeb5ca8e54e859518, 0x499440e14b8f39ae39a3da49e446c5a941f1ccdfe8e46c123efc027fad82be4b, 0xdc9f337b1bbcb1a802abf29aef26c84669fc3cb8a1e0b8ff0e20c5bd9a6c26, 0x6daa419d06e090d749bf00eaa5bd432696790e39fc1c4938a23a0e101d2d268, 0x49d6e946f20b2d7a729d4939f4eaf5f96dddfcdd89dfcafc5fb4e6eae53535e4, 0xa8184d60d9f41a9a740dc46ee8111af7071e541168010471f6095feaa38f5e5, 0x3daf3953cafa4e60de5767833ba6aa5d712be86e63bc7993df5ecd874da0d1be, 0x2fb052158ee906ff9400fda790da2e1a8e2f7abc80262024fdefd65d4a91f695, 0x63b2c7a552ae2bbc69fa8b1f46028f158d4e3570de851a14ea32bf9af653e8b4, 0x242b1fc4e28cd5016aabd1574249b1af3ac9880abdba0d29020212a5671b522e, 0x483bbdaea028596f7b9452740e8879a977c3dbd9e28be05bd4cc7b11344cd340, 0x600c47947b32a21d78781858b45db4f87373811c25ad1615a18a1dc26bc512a6, 0x5a7f830a9aa055d19f8c1bccc2c92346de7af484515beac4e68052633c85554f, 0x3d1e6475d204ff962c22187c7e72e503842b0bacdf433f31184d1424b2b5913a, 0x395da96ae769f89655ab8ebd5cbb12cffde9bc035125d98a62acd5458521248f, 0x239cdab6362a2c1cbbd2821d940359cd67e35b5e79df3db238244c492c4f96b, 0x10043d0ffef30df8f699d85d0dd5ff1ffbab0e19c414b39a5481c95a7ea7b0a, 0x2dd03bc33626c867033da2f04f833088d37587dd168d26c73c5c850c82b88104, 0x61ce8bffa3d5f7f76dacfb00b22361e378320985e819cb5b3a43b2d3bb608c78, 0x53b987196df6b47209cd159ee44c14bd400cb3ea224d11bde3b147bc37d970ff, 0xb7ef3a5fd1caf4773d17e45509f688f4ac0e2e413d25610278b8b9a750c77ec, 0x4ab9f18d09808056c74541d4213242f66f748d85878f902e1a2aca6bd7dca190, 0x2cc9f83a765bea0dfca9392c869f232bf2f12e8cb0aac3f9f912bc6e5aed5d0d, 0x17cfb6d747741a0175cfee73e6ae5e50c6906d507795ff3359f7ec61f47f1910, 0x1ede66e90712756c1c253e7633f7380269754302f8f138dcfd6a8da0c1f5833c, 0x3eaa9087cae4f755e036107b183671cb2bab22e7a828e677193d61532db492d8, 0x636dcdc921a794e806ef3511c9f54159610141dc75534a04037b438e7ac9147f, 0x5293e8b30761116f0bc81b88db186b1cc31c01e363bcc99f892597a84498e10f, 0x14d8c0ef7f3c3f0ba6065bc6c3085db2863b6891fb3fd472fb888981f6e71ab3, 0x4e3f3001fa9d43fa7ac9bdd4c111508f2588c65fdd6992910ed1ebae8684a4b7, 0x12f46ca6076398b711000ee93a3f9dc35aa2098b2a02ad06d0e532ced9a81356, 0x530a54d1bfd9750dcf8116867775c37b2fa57739e26a7a6ad2610c5fb3dd1b55, 0x6c8e46b5b26080a1b28011b1da6533b808b6133238dfb414e0fc818f800e6553, 0x7094e9dc47416ec3649b0481e4c6bb9b244b774db0358310a518db023333344f, 0x3cc5d8fc3438b0543d351cc8e32ac945a7350db874183be2d842f6398165b26, 0x62a76219bbc4afea990528cc7b537a12d579b8876daa770bc3e9cdfe5f71cf75, 0x1765e8c0a08722732447a9d544158fd7ecc45c7a8905f49da1bc6bdb526c44, 0x25a0b83c015b4c269eb94e55ff4885adc073a32d9e40042f01c47ab3e09ef64e, 0x4ef3074e499b896434596f3e036d373204f7329d04483b74fe8884e781d29264, 0x2fdb7b5de90a02a563b91b7abef8d6b4d72128bb500cd0a8b37f5a55c783abc2, 0x44337a95562f2b3d162db120eefebdea0af53f659aec576e9325ecb7cd609874, 0x4a0bb35d882372be0325e861e6422fd34fcc09165785d82028f97c8d29ce3311, 0x4025eaefbe72dfaadad708d905ae7ba64235bff5bcdc263fc1afa887680a8a9d, 0x7245a0e97aa942f1bf5221432d2f89d06b1a8e228ec666a300054ed328915c32, 0x65bfe1a9eed7059cebd3184ab44cb43fa51ff8194ee15cc45fe37b142122ec28, 0x1495b2e409926645acc6afc6cbafbaef67844aa899b943108b7b55ed82a367c9, 0xdfcdf502463d8cf36407f20f98e9a80aeffe1aeb342b97ef9d8f4e9c033623e, 0x5dff1126b24ff62f61e1e8db9d6fc503a4306270724336d91430deb31d174507, 0x5a0903682953a5ab5c082a820f63731a9e9fd6d19526d7f4fe58184b4750cd43, 0x660ddbfd5875cf94eb18a91b476ce169b167fc4ac978e4bbb381a602d37a8216, 0x67fbdf709c6a4c91ee7341c8453185c1080be5b6c778575f7b46eaccedf31919, 0x324c0a249917752c8a584aa1b1700478268855dd59fafd587f0a2505e1833f3e, 0x652235fb8737cf983b12ea400be903e87c5966bb7795eb84889ad098f9461abe, 0x527c17fc0ade7b113f5c57f7ec254aea6cc3f9e4fee0c757c553e382322058a, 0x59f33eaee97325144b9dc704ed8c3f9387ca69624dac0989f3369aeb77f12ff5, 0xc9f5c7e05e8713990cfb85be8a029f37673c9b8c0bdc49c86ed5ab9022f19f6, 0x530383aadf2bb509dd9c57b14554c7fd2575eac929e41287a2f1564d3f4766e, 0x62d9984af6623043a4fc59bfe5ca2f355410a7f56e459739113f07309d2cf31f, 0x5ba375427cba87a9a562594f8b7e00dd64b7c3de1f30fc65920696834bf233be, 0xcd2648dfb4a5997662690ff940ba07a46e2d8850b48be995cca49f84061ab36, 0x4d322d3db212a697ea5638252e65e1f279ab65be5eeae22ef9dc86231c648d3f, 0x5472b1161b41dc3a5232640f9b03ebe254bd7f5d640f6da00bb4e11a4dff96fc, 0x1a10673d06f516f980e99f82b61e5de37c655a1c478fc6cb1898c8e1d289ce3a, 0x3a389a82613292bcdd5169904134429074bb843564870d49665d1e0666cdd7e8, 0x4974e787f6e67cf04f25d96d113cba904cfe7c13725da388c16247409f11387b, 0x265723aa13644c6562d15e877c9b717c8a1f0d4a9e5e9d7e0f5fe4dae54a2553, 0xb806a24195d33491c6d35980792e1773fb2c12bbeebd0e309f8dd9bdb1dab6d, 0xbfb5180ee4442e46acb71bab4d8aea0a8949b2f73215271b0589c6bf3673eea, 0x1bfab907f1b5cfefe99b703ecf574a95c2375a16d0bfb5f888b420b95b68b2a0, 0x50a2d47bdbe23d8fec4ad822adef6db796c262b26df84db894ffe0325a51c6, 0x2ceecb0b0760def15b26da108cb84edacba47fd4a546b027477fbfb3e1238378, 0x2dea6e84d411507cfc629aca52fc996dd76e382be8fea49c3d82c3f32aaeca61, 0x5d988b12fe5df3dc0c5bcb618e01abf0d7cd8de0e325fad66b741a2d8da49e45, 0x32730ffa4e445df3fcc023448b41108093c66a77d0394d065d926a086e01e51d, 0xec7ffa40f3439c20158b2b878bf615a1eba47239b6c36f14ff3ab6b47ff1b9f, 0x3352adf27706045f87cf6f1efb5cddb314e80e294feec8e991fc5966a3500309, 0x36e13f680c1992083a3a41f8ecd892d3f9890c4d4961a25d9122083ace5e8646, 0x1deac546560458207a95c477a10a073b382867f2c33836910df04dadf6231726, 0x54a5fd892d871540a6a71dab8523d1e165be263eb297752ccc81faa6fceda930, 0x4778ea672526bda4cbb180b58b0c0655a2752ca5b7fa4260f05a2202c7c1c169, 0x367986f2479ce4259e08df5d051025e1dc4f97365a41992a940508777e8c0bd2, 0x56808dfb4126b45717e215d6b7e9efc75cffcf7ae70706c8eaede25ae5f6b26, 0x68f69849ce8aa3576a8a092f19ff08396aa3ba42081bfeecafb55bff805b1375, 0x4038b6d7ee0c51bcb0c278ddb334ed3a5cdf8c17ecd15edb0aa60e30d551690f, 0x31f032bd544144b88ca7291950c7d2cd158df97dbd36f06efa5bd311cb41de1, 0xcb3496aaceadb0366af4bc54340ef9f2664b9fa52dae2de7ce2b4f26d718f37, 0x2a05e5163ae42ffe1baa799c56734cc7fd8a7368b66224df4c106a6b3c1013ab, 0x4a51917658897f9a0d0fe648e4e3f1c757b231efeb290ea09d4d83119c954bc, 0x5c62fbab948f0fa50cdaf87cb4738874de592053ba6f91e04a95f393ca4ee897, 0xef864af9317f326f5ae38f3d61f3068bb88864ccbcdaaf0cf1e1a7daada6ef3, 0x34b4f1cc715706b68452a54dbbb200858407f051f0f461232894092990d28a1b, 0xea7bb259c3a17eb5bf20b29dac6e13622cfd5adf115e905192bcc0bd20e3d08, 0xbe56cfb0d2e1f2603237e6e6a84b09af6b94e425f843c49ed615861ebb447d5, 0xf325784a81fedfdb17b23b0ffab673002aa26e5e060a0ee293699c89e079d62, 0x40228f4d2312b94dd9f51408eabb19acad0682da886ad014aadf2a1a9b3816ed, 0x3da85a48ec5b3a59fe3148255ef6c62bb42ca92f877ec552635f0a16dc42f1ed, 0x5c8fb6ef4486fc7f81b9e7f3a8b8b93407fbefe0582160b321131182caa50a30, 0x22f188f96a49a435a38aeea7c3837f6a14649fb242d64a0fd441d9c9acb9612b, 0x7359120d1a7bb4c68e3208bbb901bef6d86fb8ec38556a7fe4c76fb8c92f2ce1, 0x3cf13ba59078a443ee754dc6c1ac4dbc293ecf229c497ac56e9e1e0cf2c49d19, 0x47eb76d845491613ce093c1c2592b9014595d981d4e72668af3eb9192cec52f0, 0x236776f1b4837c9b688fc3ba729f57188a733fc7fd9d6793bcd633f644e47b40, 0x3d87420dc35b6b5728b6982400dc0136a7dee9780a77e96f67a5ca16ff55019a, 0x332859b5d794fa3e7c90156d2b07d11245cea9f40ffc91ed961447124f9f4cee, 0x595ce7b7a2af0fa78b5939359535e0102c1ab3be574b8fb5bcccf6e53eb9c5d7, 0x3fc45428e796e88386a07cdce4369cb2d0f04c79be74c81edc15a45b2837e549, 0x4d180f849bfa4b4ee39a0510bb34cf1045388e29c3d03358d46e844edb5754e8, 0x387a96218fd53ab49e74f3aded10ba6eb5e6f35371fd15daed0d5063b6e0e1c, 0x631fdc92f22b3f81f418105fb9d1a6c8556eb67ab1b73af30b0d329ad43cad91, 0x2e8ac7e9a2bc9a7e20c647c86cc5ccc78e1456a7b215bd128aa05fdf153ea7fa, 0x561b3d033c75f2a8ae0acbcd730a17a2a6fe71a8cbcbeff8539c857ce685e68b, 0x21918353b33ad8aed47cddf617981fa7fe460ad8bea14b34a9948cf7d733170d, 0x2e21e087fe0c362b35172c40134f827e112a6222f7a53fb15990eb03dd556a0, 0x120a9af0d418eabf505716096beeb2fc549777659f79a66051598b64765b168f, 0x59e67f42237d2c347f9bff526e04ca505ea06b08f1ae8e97afe9a653f540aa5b, 0xb49ae9b87f8c3ccde670d5aa428ed867d6af903688da0edcf46f4fd289459ed, 0x71cab517aad64c16c6e61abeafb346b481b66d8dcecbbd28c18827905177b71e, 0x6ff73c16dc17b3e330255fc248ba37e25d8ca6276b4bdd22a26bfde7e7034de, 0x127f1b297102252c14539b4f67148ca806ad40f011c01f0942db8232bbd70407, 0x668f0ee7901e0ce8fdc69a827ec971f8172fafcdea8a92fd4e2cb7c993be4904, 0x11cca70051b90f4ca9fb8851274e5bd7fc6c84228f7ca13a74b4b3646c1d8070, 0x35b077a0b5e1e219e34d13689fe83b2d2b278ea1712f1f67c186e9b59d80c633, 0x54dec9dd3186e4a2c1dfbfc59485096abe7fa82c8d9453da624abd1fdef9bd58, 0x3ad3a0351b9a5244282f7dbbc852fc10ed4749bfc30fc88bc7001bd71e87b0fb, 0x68943e2fce034464f73fd1a1046e427715fe0f404154549d167e82241fdee17, 0x4409c7557d6d8c611d85f5a6bd00e53cb04974bb261d31858be887f99713ea18, 0x1778d53b81c8b898298b65cc86451fe16429ef7e9d29ec43032c128be8c771d4, 0x3410ca237c9765f9cb5b4014d9c52245ed74fb4fbb2b2b14fabe6ca771126a3, 0x38e00258da6df0eb8da1f57f943fdaaec5c49931c161a1ba31a6e5265135d91, 0x40555407449fad402f8359eebec858ec30d05c708372845b5e57147d11eb4dda, 0x26b0cbf7722535576373095f77232e5ac5c2e0d1b14f804859be17dfdf73a493, 0x697ca01c4f3ee5bf91c15a521a74aeba30c53eb980d7533497395871bac49181, 0x2c65b5db9f3870c2b98c9b1ef12d8de8462f0d21ddc291438e80ae7d09517583, 0x566aedf3fd77da27c9565445c971c8123b09cf6e63a8ed14f5f081a54de8ead, 0x1d7bcd58338d94439db5f416051c6ac7bb1226425d08283f760c11e28b0e1422, 0x735b11e517d7660a6d63a0562bdfe1bafad5a4096208d4db76ccda84e4797a53, 0x23a91c3f210f2def5ee09691afc824be474a6c7dc1572cb8981ef1c924545d3c, 0x2a8cc3d2fee9046f5b50f0b322605cc6690ec71081a933ffe78829601d0a904f, 0x29e399dbe9feb9b15b573df1b71d338f0715c30febfa2abd011650b3322a640a, 0x11a19829699673183428a2f56cc8b51e32bef8bf26c63ea0ddfef6d48dc5bfdd, 0x3ac4f596e20b85db6841902650649ff70cace9ee553ccaede61eb4cdb72d43ad, 0x15bed7d08ec1a5459c5b4b122e3683264ae3d9af64ca71e1acfee58848c321a0, 0x4f678e07413bebaf1817c8a1f4a70acbc41ed5c15dfbefb7960ccb1f8c1b9aa5, 0x39e3a2d1aa54ba4d0dcf06b5bfdc9d5b8e363de87bc8f7fa72dcf660b216dc2d, 0x15aca2b126ede2b73b159e724629daa925c33ee948db12feed12518c176bcb1f, 0x6264b7a715b294b8455dbf620bba2509e0a63cc715f13530b28e8511f40ee6bf, 0x349868f7af8fd7031958f91efdb8a1aa0a9445606a1d9095906d101029509b89, 0x5c46c266a5181c720f06ec813c00e7733cd645ad08308d69b61ad965ab4cdd96, 0x1eeae99279d121bc5b5e5ee6dfe65dc4433db24a84656d6e071ad0a2c047099, 0x20913e8ed012fa63ed92d511a50c2d13eb530f5764ff7eb3acce53c72c3ec9ed, 0x530ec0b0061ca62750e1ea7dc03983e535f48a6822c3a629d01e348c1eb889d6, 0x5f603d208c4c7a705fb435141b23118d4ea6a152db06bf3a31ad1ed5dd81106, 0x4e45c09aa33211f617a2639b41a1a16496f2bbdf749df0458a2bb2b3a9ffe235, 0x11ef962cfff8c8eafb84a3fb4f5904c2a8bf98837fc104901fb97dc4240e050f, 0x5804878cf52fd1e733c26d0f0074d391f69cfcf25b83deaaf92166e1d7d3eeb7, 0x67d91e688d7694a627f6d0938103f925c80feb93ce12eb27e1a4aec878bd8f43, 0x6927a46fe7a1a5b809be821c3800be765b721bcaeed22c6f4318f9f17dd1d42, 0x4393f6aa1de577ed34c7cc07c625736e4b2709485027d5b83ed29cbebe4c9222, 0x3a1726bbe1a46ad312c69f678752997e0112ae6a2dbd190bcc81e4dd22045c1, 0x420477219a10089347d497ff03560e4a28ab0bdd31872759d8bc7ffeb9572958, 0x5d2a98740720f1fcc1b9210ebe801eb8a7c390cb07e92c83dfe7e49885d9f15c, 0x6470926839ef32a0ccd958195830e4fe112c854ae2e9a1cb64324fda7d24020f, 0x50e489829cd9b9964bf6b82f677302e33698e6f36e3dc2a7a716ae1a29d735ff, 0x168060fa961cddf338715085d3f228b8719821e85dbb93693e6c0b27d3ba3bf6, 0x10facc0cb6ba39122f8012a74f7003fae2c37e2459c5261fcbeefbe25e56cbd4, 0x3d4fcabffacac209b253b199a1011a22dfec78015a41573a053a6936ab42fbfe, 0x70afaa6bb6b807a454614423e222a627419ef10804c8859a1a1fedf5ca38d3c0, 0x27be3c6abd99e59d8d113f758fe047e3b165987a07b9d2fec45278e3f29a05e7, 0x3063277e55c6b5751fdc86d20676c5706c77019e205772940247ab74ee50c8f5, 0x35bcc7d3583e3db733eb0e005e92b4f4766c5e5638a874e1469417e38ab1bc32, 0x85bedcbed0637c4da265570d5d537e19f33408d702782de412bc4885c27508e, 0x15c2e6e85a3cb52234144aa31fdadd85b3779cc1cc36dad02dae794e92538b3c, 0x1e07fdf269099371396c667ab6cca13a25a91cb0f12819bd6c6111c10af63d6, 0x4476cc1ea620005e76d3ffd17688a32cb9b349c17568d2cf215638fa6ee687ed, 0x685c3f643c09f4903f6149a466d48bb997a61b7488aaabd40365c9538442fc9, 0x1e39bddd54a5e8ba8621373cd00f8f6ebcb9557343b77008808485f14ebf45bc, 0x28d7011d95e71d475e47943d835c2acbb1161da4372dad57bd93b6a3160618ee, 0x2754247be4a4c51ef0f7f12a97cfd9e039fb56097b918acb9eaed420f26a7216, 0x644fcb30ec48c3cd97df65825106ca0fa886a94617964c202f0a34e69ce9607d, 0x6f35598c4e660594b14f579dfc3e9712c01eaf7d2f91c97b5d03dc955a28dd1d, 0x4e93b5548306783a488bb68ba2f97fc6abbf8d4e31bb07787045402dec9df72b, 0x5b4254d620ed3d40d268afc9d2410f61b86f9cb195df09780d7f9859d00dabd4, 0x261681584f43ce01d3d2e88602eb51b91a3b85f0e769d921e05ca520bbfd2d70, 0x38e3e4e07caeea11b96e79251744276cb6896124921879e0ee7250fd88646a24, 0x68d10fbd0a2c8c8a9e23df8a698e071e5bbfa119a081b7e0395caca46fe4380f, 0x68bee6341b901496039f838865fca1a8ca5862c949cb253aa5cd0968a355db02, 0x3c79df8bf442e4c0d7935ef6d0703b7ab4c1a87457676a1fa0c02bd08d930698, 0x20dd82b5855719042f3191ebd28a4b029676d4ac674cd2d6cd713961e9fd97f0, 0x3520d04b79438c041a1a778a204761582a30efce0faf63f4a95a43f4864dd984, 0x125392af201d53acfcfba5c306d37a3860a628731bdc988efd0f23bf7795660c, 0x17bdf420fd876e520bf8f6fef59a6748a7dac0179a44bf433bd535121ec2805, 0x2e2fb2758a17549ce433c025da4d8ad930b52c6827388f75c8a7e0c20eef6271, 0x69f06f2a4a867ee460bf77eb4bb8177bc4ad743ee8e0b922c06d8b72d2318fc7, 0x2c0e90f334db35fcdfe41f48f99ef9bf5ef17dc62247a0314ff65c7d3edfb2, 0x293318930b96d5e776db0c7573852e50cb1d048bfe0a25d26a4f6abdd1d3a799, 0x6f4a61662f42a4e2248dc24af2c97d7c89cd14387ff56f62dae58fae953f79dd, 0x5fba1fbc6ed66e47c9aee1ad13e8a4cf4b42b2964b308fc447ad22829aa7cb95, 0xdc9e02f664156a1373fd8a53abf6730348fbabda6e1dd6935e905c3b403e16e, 0xc328971792fcd720311f3fd727ee11070fa61af3b1b617dbf065a8d5b68b25f, 0x22129867e0bb20b36ae45c592fc6b53a3e5a2c49f7aba1403d38e2f1eb2729a0, 0x409c34bcda579ba9df7bc94df67c4381ebc75594c9079bb0242aa45624607161, 0x6b996f9d18ebeeefa0f03d8990c1982817cca05153ed4e8b3abb17c9b2402619, 0x4723d4e7a2c92748669c68f207fa3e87ffcfb629e6f9430723c094c783bf7947, 0x222a5e988426a391b6217258325352c38f53a699088839bd52553954ffcc196, 0x31757b77d17d70de0737b53dc544949c1736c0e409aac99b0e89936e19a9835a, 0x6b10c13a1df91d02c84e834e7865763d7ac8df8d5d120e8bca453739ee7dd256, 0x18919b360e271bfa6f7d2cf49b08691ab6cc3a4f83d105b60df8f3a8158de7e8, 0x31a6131e99f2e10b0bffcf5e3b8558c86858f249513cee75fb5727ef3bfd7496, 0x4a37af637795bc1b25035f463ed29e69b13fdc0850dbcbe0ffb827a79cdce1bc, 0x5bfefd44fa1ea3ad153667b34d2edb38955ce8678e2ce09cc082a13505b67e09, 0x5eec0116f01483f1e993e6b2eda0628c81d7a1898636f07d96d353b8fad60ab, 0x247acab4125802196a13352b355791ca30176d400e37fa866230ccb95b453840, 0x61eac99dc10722ab82bc2401f374ab035b699acebbad6d3279b6dc87300281e9, 0x5da76b14d72a48547dd6e7d825c8122b80bbbc1f8f492815c10d840da9d2cb71, 0x8ac08cd6370a2ea06472923d418ca3abfdab549a761b0e85d28ffb0b239a72, 0x70bba295548c02ae993378cbf8c3caae7819a6a35054436ed70dfb175791523f, 0x1c7d14fecce1852db00e636338e4627afc6568b1b15ff5971411adda7f3a85a7, 0x3692e29bc166f36378ee9b7b2a11cc649e35850ee5f8f070eed4c21c349d0d59, 0x514b4295f82bec0d4fc0e0441ecc0d384e92798ed4cf12513ad5236c5f44a3ba, 0x2f6daf9444f88a448b6c2931776e224df3810ecc429927a178839db496423c2a, 0x5c7dacf9caf20aa024d229d13dacb426c3e1327a928415e20b87c31b9bbe7cd5, 0x523bd4c1316e7aaa928db68a29547f93b176c6dcdf4ef56bd4c60ac5c5d8cfcb, 0x2897ad3ec86ee38512624a7915f00d183a8b0160bdf56a498839d3b6211f27d9, 0x57ca8711fa2fcac1c3fbb411987f8a8ba78796c23fe697dacca3b5edeed9a7d6, 0xb4d2fbbf8a02d870b8d2bb9ffac86f5d5e38479474ea426242a7faf5062b022, 0x2dc1fb73d2116c8ccf2d84ae7ee3e3e645b8422336d7f2c07283e36dceebb757, 0x5d359653fd62a29f9cba3bf22e9a586ab1fec3f8f52cb0eb38450f0fbed38927, 0xde92aa2b459017feac9a95ce05b2333aebba2f7923359e7f44da29f2de4eeca, 0x625e9dd0c5c44535f4ab6612e8b27fc13ef82ce2e859e42a7bc3c0b0d7cffd19, 0x1d40f81287bd97dea3150861e99190b6ef9a985db5101da667e4edae1c4ece70, 0x6e3b0de4190e166a546c7c0c2ff7c9e34cdd8d397823bdd4b2da4f915d45c39, 0x4a6cde9582931a7ceba7f7c04eefd0ba8d5e7cf2ffa3fa1daf368a0810b5f1d4, 0x2d1ac818d9fd400f67c64e4340ab2001ced6abc5f12ff9c2c99ebac64177d688, 0x2d655a6fa9e57fda1f78d77b4aa81ce3bf48fa550874ec8a9cc0411681c8713b, 0x2115ed6531dd8a948bcccd2b8efc422f3c9132d111f83447fdaa06c092e18d80, 0x4a608c54ec9ba5fa06d7ef26e48e041c1fcabf37f40734d2fba705e668c3bbc7, 0x2b1ba0089272ad23b34c3301375104381a2004062f4956b5ca0c066197c0353e, 0x2e88151d0245404d253edb608506d32ffde8808ee0b4762a60981b54572604c6, 0x13f07368402b37958b399f6e4a68b7b89a3c96e202b3aa93437d59d9a1d3d10c, 0x2f4ca218545f937299b89afe152470616059e4bf164573018ee3d02b35b1b369, 0x35b3b7de5fbaa3ebb87d2af2b61762e9b0850cea747443f89c70ac3825912ff6, 0x53ebceac62a7ea86084c642161297f8282188e6ba523b474ec41e02c2de0d5f0, 0x34418a9ab8bf4fe7561f66e8c1b6d95e6903650bf58496f75ed99f31a5196a11, 0xb593a13707cb45277ab8d69d3edcf84e367d1bbf7a77ebcfcec460afcf2dc6d, 0x59cde64eb0dcecd76f7de6f2d2ef81849f03b09a125f5483389d24a376daff1d, 0x3204ee9d2c054e3d52782041f27e322c443f0e536324888fb816613789f00e10, 0x312a3e740e373198ae089fba8e2abc3a5be1eae9fc3f97833673670add572381, 0x14f3f51e8bfe9ae10bc5a5b81a54d3db1044bbc5d1feb9c91686104577869a3f, 0xaef888f1124dde6f2bee27b7c66a4e6a987e62e2188ec1287066270b1734038, 0xbd345a7ad32994db52df5d1c71810c18f72f19b2ac11732ffa2668656da77f7, 0xc2acfafbf0f44bdbefe4cb93b15e41c10203261fda6e02394ee8de9d1a64b6d, 0x40a6c4e7334deed899cb7ed14a695f5410d00a9c6c6291f28bd948a0cb42c025, 0x2431c5876143ad037e7d656713bf88acd54fa78b15f180740b01f714f2f039b1, 0x101fa722f97322fa16f77dc6bc6f9b3131cd097800cb94025ed216cbc38bc105, 0x343b574440b52aa283595ee9dbe85790223b157f5eb94b438ae110412b67a80c, 0x1eeafe51f8f11192258aa8644da44fb403dc17102543424aa6023579a68c021f, 0x673958f5b35af4d07039b1d85426974bad2d533919fbab24718464ddd5709433, 0x3686ff19edcd140d6047df44db5f85ae11fea1b5c84fee0a6726a588075c9101, 0x222dd47f1cc7b0a7938be85fe88a86ecd9ead6339b1a5572ae25beb462810948, 0x53d654cda9425428b18f7d888351c4255f8b51548d932d9546d1deb0a38d4bb, 0x66e5871fab5064a4edd01e77ac6c58f807c4bd0a2562cefa5cae5c5ec580e617, 0x4e3c462c92fecc9ad575bfacb72e80163bc9ac67b9f4b9cd6e2de53a8ce095c7, 0x52cddfeecac3f5b6c742125403c264e3a9c695dd729ff7f2c0346aacddd2ecb8, 0x32f59bc3b798692e72efb4112c8e1ab255b618c1aeb3475101afbe8ed457c7e1, 0x16a3ff792c73fe1251da7cd00c27fb65a830fc97efc399f795e84c85ac516e37, 0xd88cff088296ab1435d40e53b366dcfc203975f0ee0caff07f97057b13e59b9, 0x332009bd45b2104ca44311cbb246e16bf08812fdeb5493afbbb56a3d1be887fb, 0x63044e2973782a367409c95bc432c2020eb5d38541160b0bb33b84992a4d3a1d, 0x66edce0d6511193ea437710e2914a14a2fe03d4a388616038ee99fd15342a2a4, 0x303ce3836f5639a8bfe6e5e27a548af60827ecdcb7025712137c3e1bed2d40b9, 0x267fda4c75200279b98c1b9afac16e1d3654575b245876c35eaeb415e4f884a3, 0x9e4c1d5fd0055eea9a3763d4130c56f8cf4762fe14579b2903f2a32ea8902ec, 0x60d45b9354452fb5e0f8cdafeaa599757c5626df26b62d0df92efa7e26407b8f, 0xda76155f5459a7ed7aaec86a5d3407d60adaf6a3d1ba10b9bab138d536b1391, 0x6d61e4e3937b62b8b6f0714f3d83f570a6dc6ef1d1a2380b36e8e0f94781700d, 0x4c733d0617ccfcfac8b5fac6719381292bd6606d5a98fe6fef3e73a81d465470, 0x3ffdfbd4f6461297c6f2d203174b5ba68ea8306ce3d31b5dc34723d6e2ca996c, 0x20537eef6c176faffa269304c830ce4fc730f640bc04b9522d34eed201c2b72, 0x6e3a71d066c18ebf34da0f2b560fa132e8cc9ca756b8c2fd0a1a1a84dabed937, 0xd92bf997d0a6ff5159b160a4306bd9b8a4e844c15b8f46f8134e8a7fed95afd, 0x5762a10e7ea3d5575ee01f3f02f803dbd8b81caad5c935165e565d422fb9bb92, 0x5a095ad6ee9cce6e994d5a152aa7444bf58d1b44127b6d5d41e3ed887ef6613, 0x331e0ab10743f96568db904fcf7d76960d62b6911bdd5d9496ce25b34de432e3, 0x4545c4457f255e7a2a8ddb4c74b54c32008a67f0617dc5f5ac005e8445a1e4e7, 0x19bfe3fa56bcf8d6daefaf20d0be96cc35834edb7bd156824e7709ded1aaacaf, 0x3f6722c8f9364860374a3bda171fe87a473d680929e13adf070407715c18c64c, 0xbabbd62066ecd9c2eeedc2190af9cf74ca2b421c9f8b8c5ced1c3ce9c3bb728, 0x7ad120f71481e005a4446a36b10c917b2e61be379ee65fc1729669864d6546a, 0x1dba0f24f393cfc79392da3d1a36370104ccaca965a14f1d8ae3e206eea3d5bd, 0x354ed4530cd0b9c436bb52a598183e02e112eda831f71ecd5602563fe81fb7c0, 0x569a4b09652f733cd01bb3a9e66095dac48f7d2b26bbcaa2202cb4706c36466c, 0xf63d723314bc807341704487e4dfa388e88fe5799fcad6ddf27485ac4ce4afe, 0x544a96b538213714f96f8e7ef74921f3b9f4b7242d6f28df5ad395def0f8992e, 0x31556dba0bf32ed723f646e6c53b9cc50566160c65f96381129ca6eca9b11ee6, 0x656e69c4f6d0a72e9e327e6d9f27dee03d66ccc0d861370e2b229a4b8e840534, 0x592f30f4e475c87161557e94b3553fb4583b9e7ea844273e3f7bec74de7f0024, 0xc63e4f295245c01c393b055ed2e48ae54ceb1f27f4400ff2fa4582d138fdfb6, 0x61f80dfd9fe236abca826223d32f2953148ab11c42744b1e05ea11b7c952da72, 0x5fa76914a94ae0cc2bf8ba11c2b7230a27016ddfc16c63711df9cf8af236259d, 0x3ffc02e2d89c24b5f6396d0a55be63e2e38e54afa9eaf6f9ed9e7a3b8e733814, 0x393323396d019f374e587bb2a4e5f336fc32401f8a4c3cafbd26012877e8de2c, 0x4837d4c94d2390b05bc0041d25704c8134f214dd308685d707b4e49b9322ba3b, 0x3efc71355b5d8ccc88294a4a680b8b7d0cea9379d40af098322255bdeb2c8cd6, 0x44b634e27a24ac2323beb400d29535b938d97470031cff7243b640e94b51dc6d, 0x13dc0a50636cd6c1324c569b5e87b773d32c6dac208303135383a46d6ca64ca4, 0x3fb1f6b4ef19ee692b9cc065293d547d35fc116bd2014c9dfc5d928e2aae4373, 0x5981d6ee253c4eac77e98fe0ed8de4dce965d2abc279dc5c7faab64e7071e3fa, 0x31043323a95c889ff05dda7fe7dc2adfadd19f2da4e2c6721fd7c37d6db51f1, 0x68107ce46f2026c958b98ce173b9466d8f5b93e6433361f97e894db589d88211, 0x3a6dcbf879536632415146a8ed64e31b0ab6178dc9a9296cf5cf13a7843c969d, 0x4daf23d5f7a75ea8e104fc239f75983afd2cc90507f142b72158db0635f6ca2c, 0x6ffd4555d034d67a326726b92cec7c690c5f8e69d863f755a520c9cbf935a22e, 0x4b70f8c8723c7f62d9a4ba46feeea57aa6c16c97991f1c509c5184145a32a0e1, 0x29328a90cec15b93b5e3e179cf942e82e5c0b562bb859ca10bd84558c2eef6c5, 0x28d598485f3f590f8b95830a8c421613b60dfa1108380303755ccd5b8541c23b, 0x31b842d05f26b5cfa83419b025eb925265ddea8d41cf0c113b955266fd144240, 0x39ffaeb247150da297186fac987a9664511c0ae8850a1052a3c93699d73fdba2, 0x4d18211561cd90cc4ace396b2ef42190ad42aef2ceb5503ec626728567fc2d3a, 0x5d346f5f78b20ac5469f6a98343750b49fa377c4bec7fe7db08cef12840742d5, 0x7338a953b3be00f7a0b4d2ce109cc25966aa5acea563223db701016fc5ae1d71, 0x6cc3c6a59b79a95a6616d4616c15ccfc76fd330a3731747c148930b071001af7, 0x3ba27521d9a8c474545d8446e6faef411ce03b7fbc3f9d81725781a8a0e9a125, 0x23aa6c89d3fd5ea5fd6c5b77ee216faf81b89ceda4aa846a6fde37cbef8f6a79, 0x355829b97307ba1e6c9a6ba8b600e6bc706d1964b11dfc4a2e66e8794ef056e, 0x2a00bd2b01f5b59750546f8ac39309cdb5a35ad249c34c712b3aebcba9704658, 0x6c70cf36d23193d518e7ab076dc4e02e5d6ee29bc8be0e2627fb73922853efe8, 0x66f576c59c6b1f0defa169aa68107242e4f1653fc13442bf056b4f5ed7082e6e, 0x48a1f14f069f9a745f4ede39460993d71c2161f17c49d358d980700b80abcd13, 0x20d37cbf914d3079d78a4e9085f47401c66ee76be2282206b98a62ad6104d9ca, 0x9054083001f901cd49d8e25b2ab8f0ead66977aeae31b5be075a0ff7b7b454e, 0x37d560489a79eeafec4a06c255f36735eba3fedbc477c6d17ce0dd728a7777d0, 0x33d78f58ae25131ea5e088a77e04cddba3f50d180470441b818b4b41841b61b8, 0x34cae0cdcac99ca0bcbcba01ab75babd2f00e4a88f9e403418d2856a46a584ec, 0x6fdf8380eb173b3cb62040a2c682a3af96fc8a6bcc5c67ab4d9f6d7cb7c76b43, 0x46326a5a06b5414aa2e5ea682201dcdfbcb8c5a29f5cbfa89ab85fd880df65fa, 0x11eda4845429fcbc7d7ded71e2fefbec7ca1e3b94880c15746615bc7031752dc, 0x23dd933b18f792f9e429101b9708acbea840df1b76147a1d92def769b16618f3, 0x59521117292455ecee6135a6d0c4311399b866e5a563684164bcab1553e55cc3, 0x31b9f9d57db0be129a6cb42da03007024b6ca8a3585a73422f1413d3af664a87, 0x221f59f651c5676392031ad264973ec0b58108166e35229ff2d97fe3d1d4f639, 0x230c33da49c8eb1ca5e2e9a9254d815c4a992f1bd4ae0221041539e0c2c5bb82, 0xc2e06f7d0dab6732685e7d294f04c94af2dc76aaaff375ca6abd643fed91b37, 0x140dfaa2ff9bb890b04da331c4c575975f652fddf8865d18f39b2aa93b8b2b22, 0x1e019c372e211d76d025712266f90c499aed6a8e4f118b9c5c9e9c846d82974e, 0x1ef1a762b98e4987568fb8e9cd6dd8a516ba4fe6ea7d7888fa4234d120f4aa78, 0x3f731c37ed02e3a2437920e0633c4fef8361ede960498e8f7bbd5a33c4512a43, 0x5c02f4311a55e37c6d68237df1a08dde83d6e043c83fe4662320983b004dbb14, 0x60547019efd7f6ced36711b6baa13994374d6f00fa4ede1207312ae158ad2246, 0x3761dada912c458d2283364d3ab1ef290f0c0b8cadae81e4a5c0b2cbf7893b7, 0x21ad3d9bb12d45f9d660d7cfbfafef48f38a007e29d10c9d5ba92462e655cfdc, 0x5db2bd02a5755459efbf6039657c30729c650ef2b289c843e07c759ffb2ba0e5, 0x6cbebeeee779badd5cdd6098a63a0a1b24d1e72f0d3b5ca44d6dd3cc93e1c63a, 0x4d1ecea2f384ef7130ae92cc4989a0f623cf736c364012eab1ceb908a20452c7, 0x515461c3e0475518bfad4c5a3c80c42f1b3c8973c68b2b3ceab70ba0bc039355, 0x6bec22677ad3912896b0cb88d42cf7757bdceeac21fade8a14f09f8d053eb603, 0x1c9e793be1104bb9e641c921f0c02130a0a4b254bff896d6f03d2702e72663e5, 0x59c8b9273645bba76c0908b385d175e000507de1846287946ac988691b5f73a1, 0x26829f62b2547ed3a4419bbe927ef41626abdf9ab44c5e4ed93ee1a5efb72ff9, 0x13f65ee40cb3044a5c0ecede4c8f3bac2e3e11be1f9442a9e812ae3bb72a76d2, 0x599b9fa24de7bb34116f8a753b2d0679e3bdc3d99d8db9daad99562df2dabe02, 0x47200935d6c72611bf0980002de169248759c8f5589d8f75ac33bff2377b807b, 0x69a84baa641324f85222714d095ebb1226494ddd8690b686712f0a772eaad1b6, 0x344d98c7a3f234efaea898a8de2c554af94fba29e0deebc5231ed55809acc864, 0xe19356e2a4464abd71916d2013f906e1a5a847fb35b4307e2722ae153d39ee2, 0x6306c020b1b6aba53d47e3e68051b6a420cbf1f783665df07dd16d1b2eb9c585, 0x633e19cc0b2cbf7bf06b0c6d04e04aca25d0480b09797ea29465c773d84aea3c, 0x73df13a8e8e82b4a6ffbdecfdeba14d186ced9d037c85488ad4ba09ae6ec6380, 0x40051e2d87a2780f7470cda56c9cbd788e101c39a0b9f88296fef69bc38c48f6],
    M = [0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x20b29ec8afd716352f44d3e802b77e91e9aba469df2d7c68be5be5be13b13b14, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x20b29ec8afd716352f44d3e802b77e91e9aba469df2d7c68be5be5be13b13b14, 0x42a8a69c9e54280983dadc37d256a9031026a4b4eccbdb4c3999999906666667, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x20b29ec8afd716352f44d3e802b77e91e9aba469df2d7c68be5be5be13b13b14, 0x42a8a69c9e54280983dadc37d256a9031026a4b4eccbdb4c3999999906666667, 0x87b891f0f8866d354eb41c2262b0fce7046123ea895bbcdf9c18f9c063e7064, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x20b29ec8afd716352f44d3e802b77e91e9aba469df2d7c68be5be5be13b13b14, 0x42a8a69c9e54280983dadc37d256a9031026a4b4eccbdb4c3999999906666667, 0x87b891f0f8866d354eb41c2262b0fce7046123ea895bbcdf9c18f9c063e7064, 0x3f7c0c646607018f283e2710978f7c6470e7d9d0e1853260f9e79e795b6db6dc, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x20b29ec8afd716352f44d3e802b77e91e9aba469df2d7c68be5be5be13b13b14, 0x42a8a69c9e54280983dadc37d256a9031026a4b4eccbdb4c3999999906666667, 0x87b891f0f8866d354eb41c2262b0fce7046123ea895bbcdf9c18f9c063e7064, 0x3f7c0c646607018f283e2710978f7c6470e7d9d0e1853260f9e79e795b6db6dc, 0x3e021802ced14302e5d18b5d99fd43eb0912163d23b7ae3affffffff7711dc48, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x20b29ec8afd716352f44d3e802b77e91e9aba469df2d7c68be5be5be13b13b14, 0x42a8a69c9e54280983dadc37d256a9031026a4b4eccbdb4c3999999906666667, 0x87b891f0f8866d354eb41c2262b0fce7046123ea895bbcdf9c18f9c063e7064, 0x3f7c0c646607018f283e2710978f7c6470e7d9d0e1853260f9e79e795b6db6dc, 0x3e021802ced14302e5d18b5d99fd43eb0912163d23b7ae3affffffff7711dc48, 0x714b295717370040bdb2b607dade2a624c04f78e9172c2a1ee8ba2e7c0000001, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x20b29ec8afd716352f44d3e802b77e91e9aba469df2d7c68be5be5be13b13b14, 0x42a8a69c9e54280983dadc37d256a9031026a4b4eccbdb4c3999999906666667, 0x87b891f0f8866d354eb41c2262b0fce7046123ea895bbcdf9c18f9c063e7064, 0x3f7c0c646607018f283e2710978f7c6470e7d9d0e1853260f9e79e795b6db6dc, 0x3e021802ced14302e5d18b5d99fd43eb0912163d23b7ae3affffffff7711dc48, 0x714b295717370040bdb2b607dade2a624c04f78e9172c2a1ee8ba2e7c0000001, 0x61e5213528d4a2aebf2b28344c6688e80dd3574c7d266fd1a4fa4fa422222223, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb, 0x70e0a9a88d929bab5a4c883db8895fcf4accdc53c35cb7e41435e50c80000001, 0x20b29ec8afd716352f44d3e802b77e91e9aba469df2d7c68be5be5be13b13b14, 0x42a8a69c9e54280983dadc37d256a9031026a4b4eccbdb4c3999999906666667, 0x87b891f0f8866d354eb41c2262b0fce7046123ea895bbcdf9c18f9c063e7064, 0x3f7c0c646607018f283e2710978f7c6470e7d9d0e1853260f9e79e795b6db6dc, 0x3e021802ced14302e5d18b5d99fd43eb0912163d23b7ae3affffffff7711dc48, 0x714b295717370040bdb2b607dade2a624c04f78e9172c2a1ee8ba2e7c0000001, 0x61e5213528d4a2aebf2b28344c6688e80dd3574c7d266fd1a4fa4fa422222223, 0x6c5e278af4d06f8bd6d77676d15a1247c32624721bd1f1d28b21642b9642c85a]).* from "../poseidon"
}
