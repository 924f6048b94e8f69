// generated by tools/gen_poseidon.py
module neptune_t3 {
  import poseidon(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513, T = 3, RP = 55, IDX = 1,
    C = [0x669f064bfa3ae17a23bd51861dbb4a24501eac92a2758b36a7320a009d6ed3d8, 0xa61a8defbacca36e4537ff2c84fa66ceee67c9645ac27346e72ab842b9d3f15, 0x21e9cefa24b89d09f91b1e8a45df275b17292b4e1aaa49301e234771128165d5, 0x4e2377d2f5cb43b2b56e1026a391be2d5e4ebc5102b7e51dc161d2b03886ee3d, 0x2255d26879b6d0d49762a88d8d5d0879f01a3b06fa57c240a8119099cb02ea3, 0x27aa46e0263ddc662845f98eb5db8645f2e8baeec680ddfc16f4dd3d288d8c5b, 0x62e1fa5861a7807d02be301fd89b30346f4875c83d73dff890cb8624fcef0186, 0x19f00d6d8a121f271c14bc471fdd3bc901907fb5e36e40f96a772c143cfb0ca0, 0x3499f695552f2c56f23e96df7f8f3c4dd3be0cf50259f3ef7e65d565609eafe6, 0x236d5cf282247aaf3941406ecdb907076f45f12f89b007168f7c7a2b0157e0f5, 0x445daf9d58581e5b0ed41b01f9228f811993992832094a9782d1d844649b4fd1, 0x21a58e9955e3645b224d031a69ef9b23678bd7e144dd9214cf29a71c0a8426bf, 0x48d3f5c7ccc9228420cb0c4d6eda2d5a3cd7bb8f18a0817cbd522c81d998a723, 0x5135f0a3315e5cc27b414ead7ca52af60e714b39873cf991278d9c83899ab5cb, 0x1d5284a657f69b5c6ae0b7e714cb38bcd175ff96a11f8bd9c77d3a2f1613a743, 0x49c2165a0680f7a121d168565177702344690ac5f14fe4038f9c9bbc28024722, 0x5e8eabc6a3adae0ef1a79060bad37f893ddd5335f4fc71c262e8546aaf307170, 0x3264d05b6c40c40c0d487222b6f385f69317a90cd6793532036125902138f079, 0x727f2a5b23ecc1410331890376f382fbad02b541140a28008dce723994810339, 0x1f00c3b0f6ebf427238bcaf2d615ca05e8cb7b9a6eb7c667d70587f1e7aee758, 0x3ef895995e82a276f18232d1f5ad341f46e4119098b175038e540a80d926d400, 0x5606f5aaa845b400ed53b49dfc2119884e00f0729e0f9cf360c5c9d8762968cc, 0x106150f58dccb090de9cfee7219a9448af8127f93ba645903a93a4dc666f5808, 0x3117bbb789d8a521034590fe35014bcaa3be1f4cd443985574249e62d15cf96f, 0x5404ca4c386646a17fba4557ead8a6404f76c1d8ad154c7bfb8c48f46662a7b6, 0x561682d9ccc4d7033e1957e0aee030249e1e3ebd68a7c72b619d4e628f977920, 0x609ebf7a728acdf6d42473dfb8dc2a9b2e9435e4b74ffe14721b3a2e044ec332, 0x206c2444abbaf221cc01b4d06b0915c3ab384102429c4c946846f58c08e45d2e, 0x41e35e0864e292c378fefc1dc0b0d94d54561dd1498a500681206f3f416edf91, 0x65963f69684a9459e05fdebc7e85f5e42ec41a7370438ac37c681e1743af3517, 0x384c77b79a3f1cc004b6d28122541c92bf3f7ade7172c92b06f24e236980012f, 0x1d641158354425746db2c72c52f05d7935191258c6fc7c419a6c29b6da32c1a3, 0x4f804c762f12827c32d5b018fb1aae24e5b284a0efb6c1666605e726e94baddd, 0x2c302e7c79800112c508bffb262bea2e38a1eccabbcfa18ea7c313d50266e6f, 0x2118be89bcf376e2cbd7741faa335b572f125299604678eca035e35114759ab4, 0x33652630502c8a44b9d65f5e9815fe36c31023b4d8b7c3639f59447024b9f2cf, 0x4b15c0ed31137be5b371052083fb04a273796e0936b2cbf1efcc1f686f2dcb90, 0x3f86a1801f46d7f30a14daa6fce4a6589986fad1b8ec46d42799bf8985852053, 0x5a46f165678e990fbde85c5e5fb483ef720160b08b9eb343d2ce7db33d2a857, 0x3b8f9db5bf15e2dc98d96bb31bc7c0d011d23fa38b1079ce1e0aa0a2177246c4, 0x161e9f7d4ef018f47889bd6497d7f93c6b24d9d232dfc84b50315e6f520f17bc, 0x264a98f297e5b58bf21a27d1c865dc75c914d49ede4b27168b365da04eb4152b, 0x38802665b39df51c986bed3c9a386d77643c7a233c75eb2aa0d5dbef34c7a11e, 0x67fcca14ef5d1f6fb5e2a9be09cc870b49c6cbebc2e860f54e9282ac50284c0c, 0x2ca0307ccf7f7b3f7ad993a80b2973e375fd28c689ba05d90a63a7c908629be8, 0x1f3072135ccf376c85d03d9b56361c721422706aba7c8612c9b647ff9c4035ea, 0x4f6851c88570a7773020d2bec31d919acec86caa1c1b266bb32b1a1c8f3a516a, 0x54b838cf161d883e4cf655f50389e65815d63f99383b45cefdb4d3e313d14ac6, 0x3ce7859d585daada6ef747bc68544191c9eb9a59f79703d473424ee64276f9db, 0x57c14154a0017a88b65492f03154f11af675d4645f69077743b14ea4f49b4030, 0x5f68e7f4c3235215f6d62be4bfaf7b3c46ffd16ae1c18dce078c72e4eacfecb0, 0x2d993835b6108c60aa78d1f8b241188a77256399101a131b848212b2db53c67b, 0x5e4a9799bbb8f9b35079c1a03038ad2e56648c8e4cc192b2bd2ad14948e8f255, 0x62f6aead0e19b6e33c5a062eea003ea9e4345898eacee8bb2a8b436fa8420a33, 0x1fdadd9c8da406323c5849b3989781fdd0438a961b2eeb7e079a37c72cd24cdb, 0x359359b7346f649bb44b8b636523abad631b76a0de563282393a6c147cf4acab, 0x15675df989854f06371913c37bdc1c006814e9cf4ac6124b11aeb774d42ac2b6, 0x3670c3a64b4ba2694ca7e8f75ab7f7758e511a30e570d5a9f4e83afcf50f4ee0, 0x66b4703bf0415b2af3ea660b391d16da7b254fa0b52e318125c78bfbedb87171, 0x72f66342d2b390fdf253d0b44363d5b53a8fff249be3466ea33727cbe3c4c1f3, 0x37cf10985d6ba77eef963771323962a435cc9a0f3b3e3a8c11a5ac9e39db1395, 0x27e4538f90ec0b009d0fba99491c34bf33d48fc90e3f1e331e31446a160192b7, 0x1b711906c22ac9937281cd1ae0f2e82828f10f229eb5b027ab11f05968d9eb6f, 0x54a3606a3e8c5ab2ddec5898a33119b5d5ab4a8e15ab22914c52f982f38008e5, 0xe0aeb0f0e759a2bbde9c7ca41ebfa2f3fdd3de93f4a1595195ed82b9b2f055e, 0x29839536e73ae40362f720bda04e4e56f167d6d1d054109a6f4f11466086efdc, 0x54d8e3ec7800ffb1b46ef89751c6b7b6c4c96ba1168e4ec46854d29d5ed64b2f, 0xdd33054f93fa501add5c7bd132146cce38b708774c505c93b604f3a5aa931d0, 0x58ed1f752578c70c8831abc2f58a332efed3780b9a4eda0ccd37a4f4b7fcf66e, 0x59c0bd12ac0f1e8df7e4362b9823267de599b9c364c98607d85ccc676e321ea1, 0x734e8779b78f832b20642577c774662bde5b65af599e48382a6a2fbd555a72f, 0x4296c2cd2d63615ad57278a61087f0171f5ca5c88a670cdce45d8353c4f27d6d, 0x70ca4f659ac365454fd71c2b5bd64640f5b8ab6a706c5b8b9b829eeaa0f7a28d, 0x2b3ed2067e88294cacc8bca7b14dd4d15750b5ea5f076ca7c41854f5cd16a79d, 0x1f6005f1c1e35f721df557808f34d2cb1ef353729be365a5ba3e679b2e928fba, 0x5fd220812f0b9285b3ce0d7d0b87b726d1682c5a328722182550f30bab0e7487, 0x29fcc8a49f9ace62888ad3b41c7cb12999d3a583dc70d473c2ce7d8871f179a0, 0x62a4e582d88ceac82e31b1a4e134fd4df8e71f47ca60cc69109c6b543a8a344a, 0x31c4d94ce026bad4959787e2181dcc89a61462a70c1e175750528998cf81e018, 0x3f26b82b525e9e40b511580861cc406bb79a074b8a98b32f718ba2c11362f807, 0x65013234a39c87f836f7f9cc8179904c765ff0fd99b11ed4243a3bf3b1177f2c, 0xc22db7080672b164157ab4063e0fcc66c1e221b6e85212292cc6f22772459f8, 0x1757f9fac9967eedbbb9a3256e3535d67c1e269a14a8fb091ace65e23661ac39, 0x504cef8899122412be40825c6eeb0f7c86999662ec4c7620b14d6e3bf1caca54, 0x376de57ed93de38cd2f30a79fb29b92e4e144fcb881ef39426b8c98dd993f8ed, 0xdba6d221e3690786243d96ea8c49e84533b982a05d2fa88175bbf19c7c4c1d4, 0x444130bfb285396e90923711f781d49da1556ab8d94994b3f2bd7b9f7d6e1bde, 0x423b9d3d069fbe61b5e54d09bc30397da5907d668ce5266f92bdc36fc935200d, 0x1da3918f5cd423cba96924cfad5663bea9752c74f2931f3b468f9851606155e9, 0x53022ce831f40d5ced2e74387f326b92d86f0dd0715432dcb4cff11862cfaeb4, 0x69e2fe14a6875a92c1568823dddf060746525455dbd687157125626ec14ecdc1, 0x2ac84677966e174c8c71dfe13fbfae2aee0e4d88b3c54135286526cfd9cb57bd, 0x6fbb5301e4cffa534c8135147704fd7e72a364858597eb3483d4eafcaa9c226, 0x5ce6e13a1ad45cd2f54893808dbe78c4250984a3f71277b9e006a20319240f7c, 0x582fd75a0cf50bb031c8d6ab9862c5019598d2529a481fbdf3617e4e91046232, 0x4f4473b814bef668e7e4a22010dba7874e44c34da109c5acec3750c3ffb9365, 0x207c2cba5430a95a8f3bd861cb5b0ee38b643eadf8bf659f7c765b067a1cf3cd, 0x6d0e096809b5e23ffb0cc9b1ca9fccfabe911e532783c3ff5454ce254e63d716, 0x5969d41cc3bbaaa2e9d4d05b337149453c2028c1d1a4a71bebdd8b9ca1aac95, 0x19548ff7a77670d86a925c8c3ed6d343f60337ee3bf60b37c3eee2bfad77aa9c, 0x5796bc6126b98754dc44e77ca7b3c89f02d60a48149081a3f763dcb37b25ca02, 0x4aa80af316c7a2b662d2e74e63852475457a950aafc7330f3af65a51fcf3dc0f, 0x19cc9df4e33ed7741e3b72596a0489968be9253c3981e851727c1342eea142ff, 0x1cee1165c26e9a5698fcb59ee514b2dd2921f6dfbb7d0b51cd841e09beaa7e97, 0x28ad294f58c5c3e4b9c1aac0f1a014d7a7e0a03cfe4d42585e7b7036a6219619, 0x63591b7786b99b3ea7d1f0be28c3c389602e31685ef3fd7312a4f952ec79d318, 0x3592ab44a12ea16648299f14738ea0817e1b563d3b8000a39cb16eb18b76414a, 0x375513f5f15360c7f90824119b64d79f4e95a792e79bab0ae960235b33d34d13, 0x6aaff1f098eae8d9c9d29c71a556f5411201785b2e32a321c53494281d4a52f6, 0x4a60db5b4fda6bd3b43fed4a90b702f61de166efde36e51bb48c98691379f7ae, 0x16a315ece8d14bf6e327e1c2aa7f9764367fb501470a428cb43cbda39895ef7a, 0x4732994724da47623604e949d226c07f0ad227e88cf0c92058c7921dc3d1c02f, 0x66cfb45f6647a095523adb5cdd45376af456a4235f900f037b3ce4c99c9bad4b, 0x5534431c0d6f15f862d16496529992af11219bc1b936b0003d884e00a5de1abc, 0x2af548fbe4c0e02176091ffbb6f3a1b9d1f313dd66643eebdeb9126c7e897ee8, 0x46c38ece952e86615931ca15c5e11f7a35bb2c6312a4d74fe153ff959b58fa15, 0xd58dbde546445276d5029bae57752e71ab406d91046f32fdb312592a8d7c86a, 0x4a61e2f96f08bcfd428bb21a79d56951f7568a2d7619dae91b8432ebc923e6ab, 0x59c58d944cb5fa9b70159faaa5a21be4762a62f0f5a78e94efe68237b208ac59, 0x1de64bab1cae8dc35d54bec400e5f25128ad37a1069f8fce553b03ad0ed33fcc, 0x532d70f037959493d5f3a90120495a4c97a3a12440dc35ebdd771abdb276ed2f, 0x2fa34fcd7ac076e02e9679ffd214ce9d68e180184449717a5926b68d82ef116a, 0x739afa5f847a858b43940441ce2a87739644a930eec30e9e929569552cf616b6, 0xf2ec24a54a31240f34724ea1476973ff062af17d068b27512e241ce51351030, 0x5a927a7ff5ff45e058e4d806b6f0b7d6ff171ede3b3d01d4f8385cab0a1b0e5d, 0x29d8d55cec33000e31b019a0dd8cb14bf9d915a75570bf5f9320b6c5d9d0da0d, 0x37a368626670937de8b35c912a6b82f4aaf60ab63803649802434ca27a071eed, 0x32f8ef20df6c486572088b70537db5ceaeb79ccd643e9e1c0290bb19350f572c, 0x9df831fa9cedacaa065f7bdd5581482e6aad615eb472fd5850a4d0c7477e0c, 0x557f47b72f848625ca347a6d8653d42625e745feea3bb289cd75acfb523d917f, 0x6b0844f5eb2fc982dc88c156d33bd39b5ba4c8fd4cd0247faa379722820b7466, 0x227dee5b1c7f8c409f38d4980b01355d7b21d12e0610ac1317ac724296f8dc2b, 0x46074918624b162c87153dd07b1fb944c38272d01437f9994ef532bb4b4d5f7b, 0x2527405b6d64e04172b68288cda1cb70f848ce6e831d84558b8be56b19d9db33, 0x43a67538a944e568afc6cc5c571fe59e89e4cc960f4957743b6433b3d177d9b6, 0x3dfa278c4f8d8744448747e6340e908bad61b520d15377262173b78d6d3547b8, 0x28470d01333eeb1857e7595d0778318d986c435b8c5c094e225b7d11ca1174ac, 0x15fd96cd7931143ec393ba38b3b15e689b611dd3b99196677260cb3f7f8db9c0, 0x44068fd9a1c6015b4158d15d9a8f2fb298dee91162c63cca3ab814ec29364daf, 0x4c59f63d303f727c672c388d3dbf6a353f9b84c22e511c0aa5bfdbee41171729, 0x3101540e1d7f0a923e53e1ef86def6b0a86e9f036a004be5ddde44df43fd7706, 0x22e2471398685d19af0f408fd1b18cd9442ed279fffdfee27bcfe39d8b8f236e, 0x5c586d10ae52a9e1f274af47ea80443accb97ac0ea73d68b42d54c51b323f6d9, 0x35b59f926a693af114bddce789fca3b67c458e224e82be2aa914c79ed039ad85, 0xb2d458ee73f4e6054d60365fe40b6120861d7bef7c63c25204577a73448ba0c, 0x2f95cf5081a78c48e317874ab8670a7075da766fc20154f99368269de3b94b5, 0x71c801487fcbbc03b61aedfa14de3d4d8184f51a6319dab24bf5e49115618534, 0x307b41c27156ac0be05eca41a102dc8823b3ddbc1399dc8ce841c1f933caf041, 0x2fc9786ab1b448457ac98c9314454dfc6c638ae8481c3200ecd17dd31d253a5, 0x4409ab4f6c0f069d724f86b5b0d55904e213d4a5fc9755c981ffa016af40ac74, 0x39176c107168eb6620ebfefff311bfe280abe3f48f8751485a1db30deaad785d, 0x204f0ac20ece2cc11169e30799579971c5f02234708b45ea5f066214cccb06a6, 0x739fc006d3b54d5a707a40c835fa6a27713717267d5192f77cb65c5cc8c4eb9b, 0x15a6df21167207003961190a8236d7e7dcd6268085760c8563962e6f87d09acf, 0x40376b10da48099faba417215372cbb92466b79cbacaad347b88931a9757b5d8, 0x5d32aa7e6fa4e2e52b9d47032eacd6509d7e5bcd4660d06ae0204e472bf111eb, 0x2c0e9f70303690b7e14cb877cd268d9781e0050668e9665f04ea09f94ab0817c, 0x231dda54ee054a0afc0530a3064ff80b787e0b25d99596e37ba53aeb3cdffd79, 0x274b78559e51e5426dc8ff296a065973bee858b2434639f66f58d466f9d99af4, 0x5992bb8ba0ca256821c627895438811ae3c066dac732b888fd0e837c669ab727, 0x597a123502768a985def858caf2fc0b2de9e4c4226799a5dc592de58d6a35f56, 0x2a0c027d819603f0735178ad5f7bf87ca5b9387ed0a3b7a8c1b7228c8e335e54, 0x62bd0e7766514106ce033ca67f075830ffc2c54b92903d4228c75762e728ecc4, 0xfb6ba60efe32561f1d9d57f69c56fca34c01cf6a3b1ab9ccbcf2a2e647d1dc, 0x450c9b21e12734bb4ffcd66850045257f923280145073db0caef03014d4b2bd0, 0x5a496fff496aebe0f694c6d6ed8797ccb76f0001cdbefecdb20f8a1cc3e0cd73, 0x601352aa918622a208db33a151eb2e3e8d027f108e760055a0fa47d2d91d4933, 0x59eda8ec0f8cf0cfe509cfc2bb12eb2251d9e30528c92087cc810b45c6289ec4, 0x47f1310d0e239c2c1e8df723862024239660bc94c20b02c5d8d56e8de98a95c4, 0x6f53b661d4b6220596d1b6436b68e0479a5f410227e6ec8cbd68d5a917ce5bc5, 0x6a0728efd48227aab46a8c1e78a6f4fd55061d6a07d1a8c969ba10eadf521f06, 0x2de99c53670cdb1ed5436b55ce0c1fe82628e2897b39f3c8f47fbc7ce454fc0d, 0x35a1bad35f8a78a9e422036bc48dbf999bccbc5baf65a9867df972615989d00e, 0x529d9e8d93678bfe1bcf24d7add25feeb6d6dcbc1420a0c6bcf9ebc8e7c723f6, 0x69cf3756ce67cd72216b0a58196037587a54e6f9a278a05db40532b86aa85c9a, 0x4d850bab7657c1ac71fd4572fd69b6d56216613fb89b262e002abd6203ff2686, 0x2784e7ef9ac462b56e24d1117b25343e45e37a625e3491614513030aa7f18968, 0x11bcab21e844da9a2a9da9721a1140213ce8d1f5adbadf22d3bdb0393ec5a7e9, 0x1aa8afc39349a7c2dd1dc466421a8891e04c456cc781e0f8bc7d64462213f45c, 0x1cdba5a6ff825aff032ee88da1cc50cc4f4e71d012107432c172ac9894c225d8, 0x15090a6658f804a428093e2f98736de433abe87a4b1dc8b2466a3733a62c6787, 0x3a1864e0ca051a15ce8c00eae2043a7faccbbc2bc0c94629667ca55db404f474, 0x2e2b4cba4fdd3698a9047f1db8a13338220e2777f5a1fd5bb83df6a7c4a649c3, 0x3d316650b675ecb72159173b507f73db67e700372a8943ae3965da155ed9d012, 0x8d5b91751a690a7545406c32eb2cc458a4611741c12a4c3e4b2ef5865202d92, 0x1662a1e3946393e6cbd798b894f344ace1d2071489ad43e6d414e393e5baecc1, 0x6b98576fe63ba1e850a4acbbe5d904dccc6a96c1d3dff54d573fbcd6cb536bcc, 0x54a91d320b6372d425e262ae021becdf6eb6917be79ad083e2aeade6f7a5a190, 0x60dfbfa5d5dd06351a917a05466e5884ed12e38ec24d5bb80be0abe065395e5c],
    M = [0x4d491a377113a8daccd13ab0066be558e27e6d5755543d54aaaaaaaa00000001, 0x56f23d7e5f361df6266b620607396203fece3b023ffec4ff3fffffff40000001, 0x458e97984c2b4b2b51ef819e6c2de803323e959b66656a65cccccccc33333334, 0x56f23d7e5f361df6266b620607396203fece3b023ffec4ff3fffffff40000001, 0x458e97984c2b4b2b51ef819e6c2de803323e959b66656a65cccccccc33333334, 0x609b60c54d5893118005895c0806deaf1b1e08ad2aa94ca9d555555480000001, 0x458e97984c2b4b2b51ef819e6c2de803323e959b66656a65cccccccc33333334, 0x609b60c54d5893118005895c0806deaf1b1e08ad2aa94ca9d555555480000001, 0x211f5460e751918257c7624b7077624aaa362edc49241a48db6db6db24924925]).* from "../poseidon"
}
