// generated by tools/gen_poseidon.py
module bls12381_t10 {
  import poseidon(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513, T = 10, RP = 60, IDX = 0,
    C = [0x5ea9e5d10ba6da9024c548dcb8375695c6fc6e02396db37e10f1ee7e17b73339, 0x14aecbb4521f8dd1ce220ba9b4bcee17ec1fbdecb941ee4fd49795c6b75ea00, 0x20d6f90cc7d2ab6cf9a4191f324549b27fb0a93c63131f6d5fa8ce7184775c1b, 0x3897ea97c6457b7dcf66228dc4c2aac5197353e2f08dd2c03225864059eecf5d, 0xe35fe7a736889b2b213e2ca8bfac994eddb2ac75cb520922c03c0f19c3bc18b, 0x425e054a0f9f04854b80c2f0dc6d274515d46c165c2a3aa697cf625cffe8774c, 0x33967cdbc35139405d6fa6ca4a87cf3ff3ccf5af7cb3702f5e365f67f27591bd, 0x70a3f399c31598fac6be521e082153f1c8d3ef6e1dae5b0dbeb8a1db58b5787b, 0x9cc5c29138ee1553db702f7125ae6115e6642ecde9a22e615ba43551e24bc2e, 0x55e888393111bda22d69a04ab86fa9de028d76ca626d99a67da4d6511e3940b, 0x3914d3bcb9849e7fb90ea308d405983e16be5749fd70044268deb323604e6c89, 0x1915499713fd0e5626eff3d6ac8b4b0cdd5f2c38314692c90dcb7e4e6a3d7ac7, 0x4e5744c0c0179032d542092f166bc032a3fa67df0954a0b62627674230adce03, 0x4e12d34714971be023b9d2499e317a8ed43e544497a12f92fff11c2eaa59cf6c, 0x2e4d854f1e3b44f466f8c89a6b8d979a7c9336bd77d632bd2bb0916ab00e8aea, 0x18f12d555b9898cc4453bd64588bcc62095fe71fa4daf23c6d390d79328b14f5, 0x48664db3b9f58b8b58e84288dea14773e70a6a7d476655c117ac75235c69bebb, 0x71b43f31d0240cd7ba64aefec1b6a3c0334dfbbc59ded248665e6ef9df23f5ba, 0x5c23f8b26be9317fd5cf176ab08a2201c6329e7a3c32ce0468ecb3c71cfbf28d, 0x65855e5222de2aba5e8a1898a8f608811e30c91eca1c31f2dafe2a96c2cfebe, 0x5fa592a38b64855e49d619b92bb39fef7ce452d01f2dfb02104fdff58dcf6826, 0x31fa5217040950bade582493ef40e869f9d82f46aa74e978d84a88e80065863e, 0xb7b67ff0ce885330da03955e4d3059bb6d1a0309e66f89b028728f1ca5a4dd3, 0x5fecc84fedabdca681df88caffbe521597c20caa9ff5af68f90d9fbd92c0b888, 0x6e01bab58b96f7116dc3a9901ac538417ee4babd468eab3770e67bc1be52a18a, 0xf2931575a8d61aef97bfc5026771914a26f9569d6d13728189d396c896a4f7b, 0xd1870987767a752332eebd22c463e976cd9044d99e4e6e8d65a0e48abc1d666, 0xe3bc5d0f210aa8f7d348e2098b45555e20e864fb3c6630b7154af1588d94706, 0x3ccd4121f6d0e9810f13d59f4dba59b90164c82a87844932d52d03c289719a2, 0x5880148ee30022e470ae93378988519d8a9a426b8b009dfff18b658fa7ce6b28, 0x6014fb53451dd5f07feafb6fd3ec3315526a15e5c791dd981bd8ffdacc218871, 0x5e16e50ec11df513c79aeeee1efc555e1a69583d527ad7899217a8098057509e, 0x2d24eef9e6378b9608efea4d78dd3801ebeeb4d4d0f9f53122a8e06193fec698, 0x58bb91ba463200229c777283c716f45a6ad6ab8dd49d03433c11dc940a6e5cf, 0x6aa82f4606f7037be7e37b1beace383b3da92bb82db5149bdb713cf42270d0f0, 0x10b924031928db78e3d626058c3abe5fd5b0b200d6f6e47c5a6b6e581f2261bd, 0x4c090afb0c45552f0184994b7ebf40938f94565e0df2d61a29ac28e2ea0a6f72, 0x189f78403f09865b2dce687494be5acea96fa58c8b0379e0aa05931ec272a654, 0x61dc3b55d808aa0b43b5f2f5993080bc26d1bc3fde30b7ada93727e6cdab715b, 0x2d666cfcb0a1bbdd48bf597afd11085e7c42f54212a381a29b519036057b03ca, 0x2b51a2fafe00ebe8ad00509d79ebf4db8978b8c31cc774d9640e6e0d6477ac33, 0x95f7950dd2e4b7a621b3f2c5e3a492a297e1645b505174e7fab1593f164bbfc, 0x26e05408ac056271f55549129a404b1a6dd97db1ba65d0011a11b4b0e20d2c88, 0x439e52d09bd1ddde53838c914afc865805464d0ae1a74e61c7a7afaa09f376ae, 0x6dbbec482ef2dbb35be25b531496142912fc880629f54fffc17f295b99fea1f3, 0x71749e5c030567d291df6ee509e2a1a99ae7838f1009af26ec1c0ba8d765777d, 0x57630ad9f9a7b280be731e8a6910361bea8a8f0c83df5480868abe13c5489649, 0x2969ed58748eb2338ebe6616c58553ba969aa4150c3aec074b0a4bc2f354b7a7, 0x60c1f239c9f07ae08e0d45d7de9a89502ee72c76e0d43597defeaafafaeb0979, 0x2a924ea5863ae07dbb93fd34411eaeabf96e49eee34fc89ede100ba38076e928, 0x5510b61da63ea455f2f265a37773e77eef7f2864ff5f02b13dd9a5193706412f, 0x6a1a8bab7902b9034dfa7678e66f622802f81d4122a91ff0c963f30d15dc60f8, 0x16a71319bf372fd1a0aace181d86a6f2d8c65b1b3ccc4024d1b80d4320ea39f6, 0x49f5d0bbe100d926e45838243f97a0a02e44fab09957944a4b0cd731c684b96, 0x23c1029f192cca2ce7246b55d882e218609b63404944b3429829d82ae17b99e6, 0x4c1507b56151fb0d24554bc7a8218c9bcaf17fdf55a2cc7a4c02bcfc47303c34, 0x6b14f93b561a40de0616f1a5fe0f828c00537bb54eb4c6f18c04b18ba1817d06, 0x61bee1f2ae9627c1a5ae68babee67e3e7a3518965c761ab0d2ed49b4c87a3ea2, 0xcd9162cb109a21885a69e9f4f147f11d4721bcb82b5e38f87e1adce844863d, 0x2abcad2ed3df54e643fd40f25c52e8e2ef9a7cf794f14882d8d2b635dcb472cc, 0x22fc2900f3000d49356bfc73ba365574859df146a52404ad7f498f221350890f, 0x3953f51d200f2206aa5b26381129e5bb4272dd6cdcb02eae4ce468cbe51b6587, 0x643ba28cd432c0b7ba1377486532dee47be5437266feba8ab10565d1dd23c8f, 0x5c883b52ca20b027918014c92e0fef6913f63e74c9e5882d31c545b37ac26f88, 0x16227c386512f714b1ac9dcdb2313a5d25e6b6e06ebb61d5ff96436a74a8bf81, 0x7d35b898b22d5b066113a4e442e5cbea0b44b2feca2c93a84f1579b104de169, 0x411e9aafc049193babfdb78c42dc78b0ee97086173805c71a8f623889046409b, 0x505567618dba7191e5c13898dc7e2ec2dfafa32c2c09de401c5332bf033d211c, 0x3331bbb9a7275b59a8b671663ddc288fd16c7237735b128f0fc2a6a6d90a6f3, 0x65fd9eae25b905ffb22c045790225f79d2ddff20bfea0f711cde76f1c80b8feb, 0x5f7fedf6974be06b059f2d4398936f4a0e84b3552bd00d85c7e479fa6393905a, 0x6313c915bb7f20c3455055f9e960db11752db60ad270c24da90a78478f680565, 0x6ce139ff76deaf2b67c96c51666c355a91e26031cd17156306b6d2f7e0a7bc9a, 0x1aa447d8ebeea38f4b419cb69099e83cee523f4fadc7f94833b1903b75e7fd0f, 0x21513a220677d17c12274ce66adbbd57050a7978cf511a4a450fcf0e4e2e9b51, 0x16440c6137abbae6cd002dea304578cfdc98beeb088161c840538352f17fe9a0, 0x38a4670e57f05bd005b08b3afb90c7bf7609179f37ec743c2ec51cc53e1e9486, 0xa5fde1d6a63132a554a1acc93b10d4d71f3297a68f84f782b0b6fbec9c4123b, 0x1e79d0749d5033c2478c82e30879f0c51527e7aa0d98e1702a55dc515cf2dcd1, 0x389a4c5118e1d10143de388e79134427d23c97f7208fe75466f217ea64fbeeb5, 0x6c605799f833f2a6a24a35252e41e4769381c0d4792b78c5d7aa3c366f1502cb, 0x6770085274b65a3b87e7e15fc8381a19a369a22fac980d00ce17db374a06db00, 0x3f4b63875f3ecc0de1e610a191f075cfbcbf9529dd2197bce81b7885a2c37172, 0x682bc3e2d5f13bf5fda5ebd5030b052f4f5d75e0a930c8f3e001d1bdd89cc25e, 0xa1ebe52d5864f837a5349aeb331004f9366b5b44549bbb82afb4b280699a2f4, 0x493c9d8ea48bde80ee590be8fcc4ac9f32d8015ff1ff98be85db553de9e89880, 0x180273f51de8e199b4fc0282d498eeec6691a22d21bd2f4376288fc1f58eb595, 0x1a8b7309f35edab93e389e2bf716ed35c128df5c65fb64892708c83c966ee5d5, 0xd0c28bc78b21cc958098c54a5a93038775a0e084eb4bb80441bdef19d76c233, 0x22ce2386487022c16462784b4f90568971157d081d47880b0d8b32382f0ab698, 0x6fc6fc876a157fdd4aba00c455b73f22ea2a55ebc67722984733d6845b93c0f6, 0x51adf2dd72cd0ad11ff0fc4b86d56f367938c7ecb4ca5a54060be881fdbb6eaa, 0x71d01899fc600f91a4c074bffcbc982c0e60cd44013148b3ecbf0e8f17e07a52, 0x64c71d75ecb78f1e750a99eca245c5ebdbb9fc4a861229423cf6bd553c5c0f2c, 0x6f33c519d76cca4a7376d1a2c8012a05b1678e2f46ae031847bb8fe9f9ec75a1, 0x5e0eaca471516cfcfd3fd2cd38b04ba9c04dc8c0165ae1f3cc38ba05d82a0d6c, 0x717d10ebf23d14d8b01e0d1a7e71acc261a3ca958078ad2775c44b85c48541b7, 0x50aa84e4da83c5354340d0741f9444485591de0b1fc9243a2bf62742ddaa3f2a, 0x6350ecad391961c4e93b1c7e1bd092e55df7bf269d39f755eafcea969ad73019, 0x46e609c1be30a310dac406327bcd503dd579cfe63a544e6f3da5b2ebe1ca5b65, 0x14d2f6d02b280be8abc851bdb5cd169b2c57311cdaf4c9fe9eca2358fc33319f, 0x77fc73ee9d303c958cae7bf2acfd447d77ca605c99e07d9be638a170f81b5d8, 0x50da88440062fc539d1dba0a7106b6fa8fbbb4f7267fd2bd4c6173294241acb6, 0x5db652e6f9964bc5ca56dc377fcf120e84c7e7137dad5f5f237b3d367b9ca0ac, 0x14a37749e39c0e30ea2d61b581b40146060611dc1cf5ef7d302208b286e20b58, 0x39ba5615d403f1dabf81af19bd0c828e0c97268731d53744e81afb4c6923663d, 0x5c0ed2333e783eb9efbad953a5238aff03d09a0906221aec79b48fd289b38778, 0x6719bf9097516cc580acd8457e98333029dc0d0bd9bb503e881df6aaa7c439f, 0x733eaebbb7cfeddc2b39d830a3902c50e88464daf13e9b624169ba4341596c42, 0x5274780a043c5144ac878ce503526e722a019962c407f3f9f624b268515300e2, 0x1849e6e9e42e94b90506b321120853a7502e4c295c0357b668fb33a13d9b4efb, 0x1585334425aa1f99bd251b27db4d797fbedf207957e3ba1dd0d270f1d18a4178, 0x424275cea71fdececa30ae933f87bbd89adb9821faebfae806ebfc57f9ca7da2, 0x150a85772d08a61667f4f28dc2d70e54d4f1ec79b9208db78d916428c0be0e1c, 0x25173cdf3373573f48886ee8eb62ecf450aceed31ae34f9d711810deb77c827d, 0x19d3d54c2d54177e1532e5daf56ddf175e64a94b9e8f5bca5ded57314c8d0832, 0x5fe9fad2386ea21f95cf843b6b9553918c82ce0d818f3a66684ecb6451ca545b, 0x3316091934a8b1c4c6b1cdb17d84d123c6cb6fe29c82d4f2283462893b79da64, 0x4f5657195bcd87255e8d965dbf75d68037476ad56aad512759536cd49d32e52d, 0x32583dc144212c3131a433368d1cdb1dfc09178595ce03a03c132bbb8289f75a, 0x53be3e611d280f135068c3e36f8ee13b0d3417f495ef7c9ca44f7b165078324e, 0x5b23c692b0bd56ca3977f0f505e3ae778d134811156727423b2463c9cc8379c6, 0x6d4b855546d6e1a4ee6403b857ee7a1244f84959beaae72fd25350b5f968dadc, 0x59fa16ee98e8c0ae3f500b7ff5615345941cfd80ec2fca9ad76c5ae6cd59864a, 0x269f97c16557463b38f802c9ff4b76b2b3fea5383f9ab2cb67e930af9bcb4fda, 0x133ff21eb31efc39871cffde510fbb144789357ed42bf760e48bb03185b4eb87, 0x30637eec857198adc411a9428a9a38789fadbbbe42b35629e2b7d42ae0ebe6bc, 0x207ab5692df0ec8133f211fd227bb81eba6e6bc093058813d91808fc59d849a9, 0x638d465932a0a793e0bb6ced8f90df58771ce4528d0d1226ced32e5c8d2905c7, 0x3c6284fb0cef8b0ad0b4fcba338313aac96c40d74babde4c0eecef23552610fe, 0x12aeeae9b53b87c483fac283f0d42a08f0604600ebe79b735efb3e802219099e, 0x2fdf39e28e990772121facaad64966c04819097fc932a8da54288ea34efe1e7, 0x42ce6bc986b62897a5a19b1a92e6f3ec3bc490a20eb463649d057d79d6322159, 0x30926b446581cb5901b95020728a256f1e92b3ed33301fa96d9ea8f4bd86b5e7, 0x491903b779c1d8fa50e54cb825d306db9e881483c12807d94b0c1b4f8464df0, 0x39c76a672f29670eef24cd3eab03ec3f7eeca2f9891126788fd852657ac8d5df, 0x1f49c86840b3d06020866b1b46237e020a039ed2c6a8573014392da83a5e417f, 0x4e1cde60834e0336ce59800add32c7940bf8a8b9ab050094f858a8ff014a8298, 0x5d60d51640a86737e3610f6ca4c2eaed3d04de30c7f5fa64f75717285e5143ec, 0x37a8a348ec06fc0c580d1bf97989475985179824129b95ab9db6045a822a2800, 0xf44a264b5d901541590eeff1955c06c89882edaad214ada047767dad8b0ee6a, 0x2d3f56e76d03983432d5143ab1ff866f53ec905cd962c905b12b015ea7aaef6f, 0x6a67ff9f16ebbb957c055b0d9e1ae13e2470f499d5099213abcd1d64bcf5503a, 0x414871bbb29db09002b09d8613106b9d52881ae01d40e8619cf9cac49f5b1056, 0x808b7b4e35208b955430ee70318e9ab8cad92aab09ff58fb283138c061bac1f, 0xe3705d152496e48a6e9a7c987d444e75b15ecb11c2e35a2b8bfd60cdf740b6a, 0x30900f38ed8e5f655f0d220a878990828062585c19351faec60cf3214b924288, 0x23d14b44d478aeea09f48d63eb8989941813abb106406ab481951f773eba9a7e, 0x5e00faec81bc2517e4cabc7edf5c7d7422a53028956a97026cbffaaf2826e526, 0x83ad87176e83b11a24a031cf42a228d48f0b318674e069a0ada9b52c0ede91d, 0x43fefaf0ef005c03dbcdcd2424edef467fe95c28e4ea893c8f8f03cf486b1774, 0x1b00e92ba8a7f1b1af9e746ee091a03829f8128728603540d449a435a802956, 0x3af24a7af377c6cf5786b7af338c6c846e6baa89d7ff67ce3e2939fb2aefa37b, 0x3e2e0bcfe7c542a9a3c2a46e03d8065fabcce7db9ecca20fc12c9416ac124db7, 0x48cc308046ded24ecd324645685f8dfc710189362558ebbb24971bd7196e2be0, 0x4de6e7140eada25aee6eafb970c1e4a59f74fa7f5b627a3816fc99a298ff46e4, 0x151e11e9a776a58712e0c98370e487e7b2576c8036da66065898d90eeef3fdeb, 0x1908dd37424c772b59bd85f55eeda0fead1e58afdd5946c8d2e50cd9c91ea5d5, 0x3a57fa7ee03bb779f3621ff8e7ba9fdc5ddeec045040597a1effbe36a2620b1f, 0x190a717be65bc81e73bb74ef73b5fa988132d942645e9348dd8a55587a0c300d, 0x5d83228ed51f1fdcce6f0a03f0968975e5ef25a5f4088f49ab0f52dcf12e3f26, 0x4fa791e4a476d96aa63ba3dad39b1b85a73f13b0d7d4cd4968907116a614ea17, 0x1629f29fa023fd2e224f338e6752581a3e053fb8bf9ffb117c071515b47aa57, 0x732e6d0dfed6a0ff03b195e8bb8f6a11c5494edb288eaf0cbe499a79a9eac615, 0x15ce51e9364fef5ede912e89ffa020f814ae10a6c723a6dce6552c1b15fe2157, 0x2fe67218b3ccec88cb7a6dd103b1021ec2eafece3c9621a51540053e2893a38, 0x760cf244a8cd02245c77ec2151145bc4e792b89b5ab54eeb840fd7488097dd9, 0x6806cd24a40b93adc6fdd5b1c73203758b17ea26a482815f95b322995997dc5f, 0x2e5607ee00ec9aa2656950285fcba865cc599e61d48c8e94926215b57235709a, 0x5184b273e754bad72c89448641d278cf1e151f079610976ef09cd09341019bdd, 0x2fe58e88488eb55e7d0e72e944c7ef8374a1be91f7a56c686fad6cd86e18b22c, 0x1222547cfdaa6167a435bef5c328c1ed32f36892855b1b8fff168799a676e789, 0x2921a1cddfa541ae36f997e8761764402c3c538ad52b8efdd48e70277ad50215, 0x101b2f594077313f3a541ab65f144ad85febb6ec56c1623abaf023b3e5954a98, 0x3b82dabd3bc263e854967c6aaf1a5b2581e86668cef44fecff3f3f8e353d2056, 0x136daa93aa3f5a6fb8068efbce1a88b36ead70293ae36698e04e678b6b9420e, 0x29d8f3a0ba1ca33fdaebcc71b8cd0919e7b3382a8d1ec726d136456694dd3db, 0xe56c5011b54fdb9dd1cd7ee73dd111f2f6dac98bd550cf8955c65da1875a896, 0xf6ad19e953a2cdef2ee8094cd5fc39cbe4bb20d0d45cd6185819edb9d7b32d, 0x4d6103fa70d4914007de416d9109395ebdf4df7b7f7eecd2df9f004be4b985cf, 0xd70c014ed38e7df6f5b8707bb9d8e273c128807a57161f863188a887b7f4735, 0x43073923f839d8d368dfc8eee4a0906c316bc5250b8d1dfb811f1b6d4319457f, 0x436db29893921e3c53cf6480a95e859ff84a68033d31a43c744cdf07e54a012e, 0x682cb8b3f1734ceba17fad869638959002c6ae6ae97bb2456bda0c8f585d8059, 0x6696c29e9b00d959c879a937f71d19e29dc0732bf1ab1e005deca2c815e53793, 0x6f939c6f53b6f713bc36238f6c91302802b898b1f5b480a3c316de8c0d2d990d, 0x6096ffd8b0999103301fdc5a37812054a417d28b14f5106b84fd4c8c87784197, 0x3257ba686ace15ffd7f851f86edbdf55032ebeb20b4d0b04581a4f1c124b474f, 0x5a121bac97671cd4d76b8d76721188dd4e7428ab8e56b273094383ee1d67f984, 0x3450c2a29fe2a45ed26bfde679f26a8d19212d736405e87a23b81bda94664fc5, 0xa96ee6dd129b29e9305fdd56d81a099d010e6b274da468c7a9a7b535b248984, 0x1266d4e2e0a33bfc5d14cfe9b9c9751be3da5742fb6e64b1db16c9b95b70f749, 0x4b7733027bedf5cc45c3c8646d4fe2767afdc5222d86d46a54f74f93313a952d, 0x3644dac8001a1366d0525e26adc10cd235a323fce818c710535cb663980d148a, 0x1fe3be0bb5af142959ec5b97121d115a0acace1aba3e3fd626da03a20f3334e7, 0x11a5cea03d7e3e6bac4b446d15d5182c79b7841d2a8f1e0080d6df86dd4bbdff, 0x34ee090c68a00c7a4af8183d851469db790c0300d79083e42dcd1cc14b0a0f91, 0x4ad8959ed68653770c64eb6c00615f7b6159b2996682ba886bb7f2d0553120b9, 0x6c03e5948e924f22b105128801ac8682f53603571171ca3895471d2be8eb4d16, 0x1a638a05c6d676432f7f80ed97f5474fbe36b67af7b02814ade7b6559ffcb77f, 0x5ece0ac0d28865f93fa477ef627f2bc1cc572bc6b67a9736239bb0506e4fd286, 0x6e89139cc20690a9eb3a6f6db92f7d72c9777d012e56e2d1599996b44c4663b, 0x348501c00848ee06d63b5899458fe39d1ebf5036ac3633ee97d7ebcfd4b111fc, 0x63dc548f9e639965c9308178a71c4e431d7c87c5bf7980cf26ff19272276e22, 0x429e68040b26eb10d7ee43be1ea0f79444cf14a38cf74afe28297ca3ae07919f, 0x3640323f9966a7d9377a15241d0b8ebadc22c60b6aae1e3cb620e9e96a448193, 0x389f6d210f5d72f8ff5b4d1be9c638299a393efb8361da6347bdc83204ee2836, 0xb9c6e30ce0798a4cccc485c884fbb353cdda3bb8057c23f5a3811d9cb3ae9cd, 0x6a9abcbdc34cde1a9853cf87ecfc57b23647b76d9696fcd493b22fdb3df53a58, 0x392b0e8a3e22d59bdb278a1998e40edc7a50afaf8e6e391a49bad34c77d76e9c, 0x32fb8422c137b6c61a3fbf40a2365ce3bbf782f14221ccc6bbf5ab676f6024fc, 0x3b5a88a3101a21f60313bed54fe567e7e7c4b461b9a69b206c20a811fc700d85, 0x26fa1440600370d49efc1d66c98905b4c4a507856f2d14743b3cbc98cf308c1c, 0x20fbb2f4f515ffbf44b120a2506f81cd1f04b0f365ebae579ebb14cb195d91c3, 0x5a7a4865108c7237ca3379a70ae221339748499f510d25dafdf428c6aa686bc0, 0x32fd93a84060c18e5a5ad6bb00fb3182e9f091660ea0c6adba157b1f9ff29fe2, 0x3688369898d87dbb1d296093d6c4513ed902c67f989c4e17927c4add816747b0, 0x466f123180acebffc145756b1fc7940e0b2a90eb4daecf52a905a9a961ba7f9b, 0x19e17681f190f23e522e39740d560ae9aabaa0c3ae27836270681b6c74e104ab, 0x3fdd00a4a01ad8daaf860636ced44988b11edb8b7e8693d1933134391f243a5d, 0x568b929a5f0980afe1699594070b91713b734b8dc79c26c213d45330e956ba0d, 0x2c8e6b13afa45059eb9cc475bd9ccde98ac2cc29fbe51fcfee089f82ca4da612, 0x670df4c358dbec1d716c59087dcc68d4351b99538c5a982bcfc523732241809f, 0x6e260fac0c18fd69933c2dc077f864fa34917f1c2b90956761e2860dd09b5059, 0x82b76a77dc55e8576e8d0fec7640a364d82c25e17304088e2aa364f9d309f18, 0x3c18b3af74b235f86d8688d299e5eb3f08f40f8b77508d88ff21901a6e6a24a0, 0x2d3dfc0b77dbb81811cf38bcb009f5765bd620bace93e81353995e4a0a48c9b2, 0x335c189f03249077690a65625fc49d836d65314f96844b0944157f9f7cfdc0a6, 0x242a3ba3f1945ec5b4794750f21174875c0488f6d9d3f47a64ad5bc2fe96bc81, 0x120a31c9373ecfce6ca75a858e628f755101d97df9505cdb1925439d84b3c1e1, 0x4429b3f17a769f23a5bff8860ff7391f276a547551568969224acc1f3f10363e, 0x531eb4cf3f0ff5940b34b67e4518995436e96367399bc468dd8a88af82db0c57, 0x1b3330793f1fdd76a933c5dde54643e3f5f3e7312ce1ec0200e8938a5e2ede7a, 0x61e700d21ec5fc58a949635bcaad9b4adc15876fef3ad0a2644ed2454c112a07, 0x6564451ee473b30601ce9db667f1f74c80ddf92812143980c4def387880e7ecc, 0x11514557d34735935c1251e0964ea3beb2ddcb0e5642ea577003101bb1c02bc8, 0x2d9829b5b59ce305794b6901da16411c364795319b440716f13049e98fc8de7a, 0x3c8c268c7e8209db294ca5bcaf8b62d55336906a625112ee2d13a02f3fdd8ca, 0x15169b096297bec06c0637a89b8447898249c0d1a23ff37998afdefa9a64db73, 0xb7f73f26aa2bcb15670e37bf2962f9d55583a7a09a870eabc45100790cbe2f5, 0x3e9d42f6bd88c937f31078f49c3edf79bb5081785cd4765cfed2095521fdc53a, 0x4325403a02e1ee2e63dd2860f88abbcec4d83c6fe186404efb083884b7e0b3b, 0x5d90a3f8a9567f1bc80ba96d6c2e500d201cb3d36072f87981b2668238c8abf, 0x1ca8dfda60873630649928b6731073b644010deeac142f769edcc6dece5b11e3, 0x54d94555b26910769c228c90a277c0263597819ef2de9a3dbd4d8816ae7f797b, 0x52868edf4e9841831e053598317e859d6b285b3e354c4e9f295b852808dea4a9, 0x3d55e58fe824fcb607733e8298c516bef9582a62b147cde00ae50cce4eb835da, 0x6db5dc1572cbd76c58e06751c77da7ccc44cda903b8ec6406de1a4f318affa2f, 0x73191924172e00518a38a261cde880e852ba0891dce43d3ef9e079e58ba5fa7f, 0x201cb1a9be40c989410158c673e43da461ef2302652597d971cd91ce19c88334, 0xd126282c7685a7d640cceb805d9b5ca309392006ad617d1c5d14dde7fdffcf2, 0x1a9f99a8da5c74f41bdf8dec85f15f1ab456f80ccdde5ebae2207262029bca52, 0x38643b373bf827562453e7b0af80fa983437b1c8919686b65442cfa802577d0a, 0x3577c10e70dd00ef61da8f52733fa3ec1094efa5c865770dcef9cc3a9e2c868, 0x1485f02c89c34c8a7a758e4a96cf678f1e6e9dd0f814b67076a4a9d3fc4d6f97, 0x1e64f7a79488b1255b3a572f06acaaa6c4e886a039899528550339e2eca4aea3, 0x4f38ef06c94049fbc9240db8d779c2b9f3df97c1ab5330279c3dd93fd3c7c7ca, 0x60e8a32d2c8f33bacd3f20adc8f30032524583cbf1bb8a17aa0dc458b5b7178e, 0x486c86f0ccb59c78a44db6740646678027da2be07cc5a3f1449395f7d414a638, 0x53199da78bfd644598f232cc98bb64936f5595583b1f14f60d583d14a6341c8a, 0x44d6606eff3a5ad0b6f5db62cc5989c681709c2e24d514b5e7ea68268df32ff3, 0x4e0de625db7f0e1c811990c6e94ed1c8d4d985c123f57e215f467df6272b467, 0x27d9cce5ff34e2a19af218eeaf5a59336f7f3c5a963ded006f9619fdfeeff608, 0x149fe4bb8493d12a45969dc4e39fb3e9011aef92392b0329ade4a687ca4d825, 0x3d34a8ef65eef448e71ee4ad72ccb7ff0ba6721d4668969448e785e5e5945be4, 0x2615414a46c9733ccfec292e2a9b3afa7add1b62ea588365d22f3e2f37f64fcf, 0x2d96d55dc6825d023f47814b3840638db6a13ea2b17b88e66328fb9dfd678351, 0x189c3001980a693e29c9583da1a31801d38c7cc2365e26961e4620e3aaaadc05, 0x138d1a703ae26b378850344f8f088879725e3327a53e8860305768cda7203588, 0x34336b088981b49aeea902ddfe36e80c2fb9f6e5cf57722b8b6bc42f106b1079, 0x25eb55d2d689319dcc65be8283f040e5da8471b5b50a6125f3c3a552f289c3a5, 0x6d1fb90bdbb821f3e506e0f1c22a2ab8e003a187dcd166d280a6a6e47140e5b2, 0x5b333bee5c95feda864a0b91648ca52575533cb8f616d6a7175bccaa1b0e65e5, 0x22cdc7c169b0cb9296cfd6c40fe27a5313bdf000b7f79226434cbe2651f9533, 0x5764a2acdcd1fe7cf14090929f818dc11272e15ad49abb020aa8da2597b7e5ec, 0x167c5f6776b790a0b64c6878f8bb6935b0c78f0d6843bb578d908c12c7a3a451, 0x4311055de4acb733c8867a82467f4dd49074cd89c4253ec65c76bd7d1dc1cfec, 0x4a92715e2313c9603b8cbe3a39874a9acfe43379e903647f6f228eae25984042, 0x1377a872a455acdc84142524048fb2f79004b9503627301c7142f57e51f417ab, 0x333836f65aa6693ccac7d44918b59db8c4c1ced8a78457679e8cc3f1826e5228, 0x4c9a8fb65d09869edcd9e72ae8035439ba4fdb72b41df0ebe1bbbec1eaa52407, 0x6a9c377ea621e40ec25b7f8be4db8990fb20d304d421819b6e698bdc44b46368, 0x1d13bd442c5d689eaea7354d0d66df645fc6e072d115ef0eaff009c2b2772001, 0x330aa2bd8dbc0f32e612cdb29237b7bb6461786b27b940a47c80335dc0d886a2, 0x2ec01a1cefecb7da8af346bdb57852d5ffa7c35b137c5c393c83859fc5ee040f, 0x4447bd729aa3a4643f65f6b4b1b612be8274e753b16a8807cf3e30f69946bab1, 0x3e3528419492cc7de252f81017443060593c50b24663b00afb9b1dfd7858fe80, 0x3e2979891439fbc66d7ae5ab09c6b9dd2c3bd5fdf15f5dbc637419266c03bf12, 0x1481dfd89bbb0852bb77bfd712dca1241dec7750d47b5ea6077fcebe2952b5e6, 0x4bb93813851fc1ca0e603eb3b0a01434e861d758e567fb563232d903f23e7040, 0x3a055f9a374f8c569110d0959f1db73f962c167ae734488ef89d611e6aa46861, 0x1594063dc28b1ecfd866a266535fe2bea85c1e38be0c275eb3c6fb0f04346e0b, 0x6ebaeb4f518060a3aec258130e6475d33f2eabf24e67543de9488508f0de3117, 0xa4c21ed14201abe72dd65f00f1bb17dfe042b6db3c14a480cee262934f9b5c0, 0x2b5271e634047cfb8ac64f748d0a0ab95c43ac9c156b9c63b9287eedf0391c8d, 0x38c4b0cd3900c2a45c48f97107ea320b54e8c501c8edca6057f97dd363666e0d, 0x1f9b0e2a00eabe5e7a8cc4e37d6bfbdd4a348577ff6fd3fe29c232af06db7702, 0x2d9db6ad2a2dfd9ba831541537d815e7253fba14f2a871032b70f67ae6ad7508, 0x40f21b05200fb74696fb618fa726cacd1ae7b812ab498ab14fc2330834cecbe6, 0x67d92ca4aef25906e30a43c68f90f1122d541c437f2c3b8ce4733f354f51e9b9, 0x13de27af5b167d2c3291410444b525040943a40247d77bf23ceee62d4f536ebc, 0xf07d51199f741f9e976d0ebd5451e62ba582820131b630ade31bd0ca08f6a45, 0xea4548ca33d5e3f7b6dc5521fa15b5a55b1ed5a1a37ef6a9801b5c9248fba2d, 0x20f86b06f55c500b79d10faeef5f3ab519acc0282d701f2ff522abf1e372b4ff, 0x48f40ec4ec70692b1d9a84c6f80cdce1c40bb14ecc8b2f432098b3385d66096d, 0x211b1bf3c0e3c2596f687478f36888de07fcffb319850aa33044a997702d029b, 0x6d752826157937a4ebc45a309f25c81c92d1bffa8699bc609e27133a764876b9, 0x2357f3b5a94b1841c9e5b94de3aedbc25f8cbf5d6a99a5ef862485ab1e90894c, 0x4d6d7373330235c380222666e28c0c60360781bee4b713f87be96cccf0a0cbfa, 0x37431f0303e95fc364a1bb6eca978010d87ab101fb754d15f92422022e7ad660, 0xc5f375a33dcc79f8761fe36780b8ec59dcd618b8bffb5217c59edb24d14fa0f, 0x4a3a3e113a49f95ec2cdccadd7a60fab7b5b293b6e645a7893e9fc8860f5b28d, 0x6c1a06632d946b18c7c7d68ab5c4afd37a909b790e733322f3030c5246613400, 0x2c2275c3fb2af673e9878ea1794cb1a51c4761f4ac9a4dbea4b6d78ca51d5424, 0x221861e1f8fc5e8d0dd354ad4c530b1bee697f600c5ec6fcd79798d78cc4081b, 0x4e0b61fae140dc37192b29fe995720655a6f8c953ce30fe5eb814f87bba2ce84, 0x72e41c5ad593a04a4931fb09a0e3508afe17b3cd3e4f016d4e64618b37d9a45e, 0x6b8de3d293cc7ea89cf7d796e142b77a5df58e61ee0a5a7cd07d01c6da5feb80, 0x3a254c8733731db8ac667851b37be9c8f1ad664823cdfcb685ba196d7bcaf60a, 0x47af3ea64ac5ae586c22e38656f9e678149c3abea25c8189c24ba026832b2abc, 0x34983ec33966dc72162e433a560534bece7e48519c1ccd0e356693549606461b, 0x5f1de3a52c29a3f9f744c17e898f9a661199782f412df39a047c4ca959c05be3, 0x27c76659336a024ff9155e4196201de213acc77be73585da15286fa74c09275b, 0x1ed5218b4ae4b5c3f0db4c747e612ffca831675abbe58daedfb6dd905417e36c, 0x319450266a1f51d18e8222dd1230958f768369f124887284d269093c99d60f82, 0x53d14803bad4952a607ebdb03c6a3e36378516371a29bcc7732e6e67710f4569, 0x7261bcc75eac5335b6354cea7eb1f4b6d86f80ef6de57fa433f6cea830ee725c, 0x27d799317134cd0247852d98f438c5cd18fd806a83d992e8f42a7c9ba250f085, 0x1a0a1df4ac24e564dc55098534da819a2f9005fa6bc69a5c3695d679309a2470, 0x1bce6a999e44729c2dcc2576ac91e3c21cc1468a1aeb1f63b0428fc5161d57a1, 0x24f61de1776730727be3e07541fae4acb3daaea1fbd10efcadd379b2dd1c42d2, 0x7197de7aed5f79cfe7624ddaafd50608bce83549882292701623922997fa0aad, 0xb98e111dbf270ee135a4dd592b83ad5224fc1bc157886a98853905c164ae332, 0x3c741e30d31c668a72a09c59399faadd09c393c70d5351cfa2f953672c41a52e, 0x715355d57ba9b43be98d45b5380f619c616f8000dec0f63f26392a8b47ef9d27, 0x5e986e6164620b9f27e1f1280b70d372e2ef12d9b8ee29b0b02ed1070edb4970, 0x61e59092b52fc9ea929c324141cf0c50df206e232ee11f03ab91ed1789a2913f, 0x55962b7dbd16d32b4cc8b13ad9f472364915f44465eb2f052cafd422c49b0852, 0x7282d3f0b139ee5fe96aec25001ad3877fc4cf3f2afd9f1745cff8b152a57305, 0x4d77d60bdfb5f66257032fa983f9394b6cbc605d1e8e686c0549bb602ef06b2b, 0x4016705d077274ee779e64f7edb3a220ae7d4af565e667621d5fa3bfdaa55026, 0x4fd3ffbe561c4e4f33010630c3c0559c1f106273a5489c64db673f5e425d4df, 0x51885ee514159e09c47bf27671e77cf4612066405670aebf1e3ae114815040fc, 0x10af3f8d059c722521ba445763b83ba2f2c991c150a46d2fd6c222cc9991b076, 0x57c1f26d8f97a73094ce424066c8c088bbe7d47c5a449657adbef7804795678f, 0xec60902f85c374e1985327f1d037ada31cc78f2b20e3d9424f77cdede93925f, 0x6d04c36f27447b341bc3b4403ccc1af9c76d4f71cc49d60d1b07766052754a9b, 0x698b1602bef740e248d2e6adaef7aa5a800597f0568376e269535af9600c3859, 0x16d4e6f787d612d484d0a25223bd45a17061a26073b4bef0992f42bca93dcd4f, 0x12e201c6786142e750aea62191379be37343bb0d13682f615b07408748be3094, 0x71d4fc8822c6392aef266770a4e1a4789a070d098ba159432f011503751302a, 0x59e373f51f5c4c2388c661a13e9750fc01989c1e32dfd03332f96f706df65d8d, 0x1f439fccf79a70562fd2172d7b7f6736fef242a06fcc0540905b00b39498217a, 0x3bdd8803368a9e38c72ac2809a22ed1de13a04be6b067f3da9538363b82446f5, 0x20f34b283bbedf0133f72d1e8e58b59375f589e9f7392e6149918fa592bd9541, 0x87bea790502e5ba7a932194b11bbb75c613cc9fa862bf1f4e6f32ba8e48cfb7, 0x6dbf413f7f412353cfab1c6054a1cb307d2a476868628851fb4d00d037407ee3, 0x2711ca00cb8ef814e2ef309aff15c51903fc4584081495436f4098925e13f4bc, 0x2d6863e42fba00a58e6ae0694e7d0f94853b6a8e00f5d1f53328826e4490c2fd, 0x384bf23f28a16357c92acf9ec985cad7f12aebfe5320ac4e4a61e4f9f4eeb7c2, 0x1a23c3fbbe2900e35fd9e31c7f28ac1f50f3bf2feb6e3ca6f917d4aa3e2150e2, 0x6d813f4f0985f0134d08aea5d72b9a387e13927e746405d01e18089eddfea8ef, 0x2239db955fbc0afb6951b2dfcb9029bbe53103759b47a229d57d6b7fa3792b6e, 0x2dbe9f1ed58b3fcff73706ba4ca093d2f3421a3444733342c40d7806d791d091, 0x3c430092a0494ccfa4cdf3ac4b8f809100d80925d693033e079ccb4b195f38be, 0x6dfcaf7e8d5b7ab6ec7d01627aa1c6483913be467ac58e5b641231fa7ad87e89, 0x29f6e97f8dde012402f6c69b0e60d3c125555b3b5168cf841762e911853c07d5, 0x4af296bf8246a92e67d0da2323983bcd32cd70ed13b08b287fbbedb979787d74, 0x5bffb572a3086f566ad1ca9da97f414bf463795e499a2916d05600cf85a3bc44, 0x25adc68bc9fa319561d1bcc847a665313224447be633cbdcb2e212296499087e, 0x2061baffeec8ccfed8d615cacca8e98f107d1e46592ce2b07e5aa39c9edd45f3, 0xd530d6272d871bcfb69fe42c8070fda6ecd22c44cd4b26c3c56a76383bad760, 0x12d951f95894fd419b55e9c5503d86d3bcf9ba5733ebf73e4b0bd15d5633ed7d, 0x3400dcb5b4f714f9c1291f8505e18f8fb3f001daf6fac14d70903a927a779a8a, 0x1c6c27345537da95e29a7530c66fac1ad3ef44d61a490cb10074d853f51f4678, 0x3449f44e6946264fba465f765449d171dc86c5ffaedd07c719b8ca9a30a42779, 0x459086a13d718a78f2b2898e074afe87e682d905a8df02ac49f90cbe284c192b, 0x4e52cce2dc0221eb23b4955a262f1df04f6f1c2843d056a746c1a2cad97c0e5a, 0x58495877c8b0133a1ef56e51fdd7d5555c23ee689f02aa52c9939802122b1631, 0x7d7836c182271d9201ffd64d24bbed278ea6e20bf54fc6a220fdf093bf7ecaa, 0x6c1e4a95188a9ecbacb10a43f3e49f3091ff82a5e6bb9e111b61ff834594bee5, 0x62f5bb7b10a98d6f8e96ef9cd91fbdfa2d69a32e2d9c305298e72de1a6981404, 0x28e8758091e42c42b494c628dec1ef3172b589cca246a364bee9618b919c7812, 0x5e6653a2259d8a891f4a7351ba20e075c1875c0fb68c7afa046308af54b6eddb, 0x3ceb07687e0c34caad4084d2172d573b9fd1d4370915be6247ffa5cfd308efe4, 0x20063fe69d4ac47defec9bf44125d90b91c132d721293eaa3385935f1a770bd3, 0x3aace964d8b50f0d7188c0eb8f2477716fe0cef2ac686c766cae1b776430fa81, 0x54c07044dda3baa8cf9629dc41c0526a5cdeb084cf7c55b71f08cf5fc59daec8, 0x37595346b372a9d5c67ae14780844d90d1c6f95052b2b5ab225472db45cec1b0, 0x589593d0984cc0929303395498b29e28fe776241b6a08f5a99f8161a658f740f, 0x67a5047c3dabc49689bdd1d6078e58e7445c1787c108e7e0822596c3862e60d1, 0x62a04f9cdeac3d12544bfb74788f635c3568c8139da96405e8fd599e037df1b4, 0x1fc7ac560460a64c0e5e2c51ceac2565e4d93ff1f04f35feb611512d9f0db4ef, 0x48c150ecc7005dd4b3da3b51070946a3e444aab439ebcafd66d25c9a5237d066, 0x4ccd56002a65df7726cb5e2b08f7b836dc56b5782173d9bdacb1f0a20398cd19, 0xdbd3319511af4ea635182627405f313233475e657cc9f9739fccdf85f5d9103, 0x3b08efe8c21bbd2fa6b5bdb714637c882f6c04061670befec7a1986f7577d352, 0xe767a73300fbc74b4c2bc8570ca0d425b64669e072702bd1a5515decfd4acd4, 0x2bac62e4d990a7e96dfb440002471cc33197520bca940ac8ea01fd31ddd59acb, 0x372ddac5524ec44c2d8a77533aae48fffdd7b0dc6959edba49a082dd992f3234, 0x246592bc67002cf36639d9267231c29b0736e47c4129d8ddfef0c26c50b83ec1, 0x5b745c79c20b73d4cf6b8f03610449ff85a5707131541b67786d963da8bc8462, 0x3504cb582065a3809e9b72be056e2f19c05764615c414d6d2af4467b6f77dcac, 0x1ccff8e5b49a16a11ffbc5e9af38c63d2a491dc2bd49179a0ceeb6957d40a833, 0x39d11ac48575d5eb4d289456f20b6e4dee4d755ea599e751b0c446bb1eb24a15, 0x2998a2b5ab17a26abea6bacf8b7af088f2aaba1014af44b81fd55aa2c8700b32, 0xd4d83d651dcf5b33bd42589deaef30f3078b868ac7485b32d2c92bd3b69ed8b, 0x61268315e2ac04374cbe28040a224aa9635c862e03560b701639f4dd6898bbd6, 0x41e806b377efe2d1aeb76d085a43daea6c97df2cc9a074cf13a8ee70c9e369d7, 0x282974a0085fafe3f9f9793c89c06e518d3ac9010e2d2843151e88c7e64535b4, 0x58414c2818f2cfdb7a6204fb547950e9ce69c974fa7630e6d4652f42a425a7ef, 0x1d12e916cc095009015dda042c147c1dc4d28c0c3a410839cb388613c1fad15a, 0x18e9b21b95bfa25259d7e3a46d6cf5c42a389c0db3ffeebc53792244ddd28fbd, 0x6cb32c829b4a5b629060bc45101e47c50f76cb1b65e87971518de720ddcafd4c, 0x1fbb24c56910e2c792d5a1f22be6263b0e14f8d51d68550d17388db06b5739d9, 0x1d47412c3bd05e04c1fce35f19c52aae7fb447e3ed6d841312d86c1a91d914d3, 0x6796717125b9d071f3037b1247854d5f612ddbfa25ea34394b81c7139a901098, 0x4cb8dc002b7740a8e397b75c4039733e3c27646303bc942a5699d6a3b508b66b, 0x4541487deb42e3295de847f3ccbf4a028b2cc7feb11087ccd9b71e61a1f83f8a, 0x1c5cf84bc92efaa6e2e11606b659e5080ea84f96441d825442093d80acd6f6c6, 0x2c9246e540afefa6597f80ef2bcd87727e3e287af31828df2721a237cb100963, 0x44c544cb19d5fdbeb95a1087cdea3c7c48eb9f3bc1505322f154eac1e000d3ca, 0x3433025a29276c8c8832f4b8987368397a9c879f413e6f83e6f884011dd5520e, 0x4158c067d03406d69fc2425ea7a4765c559719353638db48545a7d858513304f, 0x47acfba7bad467f394b67b1bcc9d2a801028836f2539660f63cdb5661ffcbb5b, 0x68cb4d8646eff73285f7ecdc867953e3ff7596ac5aa3e0dac468a6dc95ea101c, 0x34e785389a83f1c85e1f433e89fb904da8e5ddf25a0e87c817d98df134bc1bf4, 0x3b7119f3a5038ec390a66f64c05f7d3610a13a46db4e460e89ca06dbe92aaff8, 0x370e9c732d385b90fef217c3c9452a47f5d255fe2b4667e2f48f59e809f1e8e, 0x65d457ba4b1c76a06912680905ac935d2a8ccc6ffa47f9d1a5d7b9320973fbcc, 0x3b3a7025f8d4f05cee9eea2f0874cb2656dacb167d180abc5b847aa9ca3d3de0, 0x1835859ba32d0bf99a398e2dd39c1ff85b883947ce7d3d6fbed99013e9c7bd13, 0x6f6c279dfed890f55a0a51a0e28f7b6cd86edbbd368cce564c1c1b1db9a2f50d, 0x25052df66b49604ea3f6e3fd4a06d8c76c335782629289170e25805df329764c, 0x16c54602990071f68218ceab1cfe76704fc59079972f9a33fea107195329f1b1, 0x3d45ac726be8ce50bda186f6c1fd273f31137b823ec92dde8042b8da9a40c9b6, 0x1957d7b9359e4b5ba3cb29d910c10b05348ccdaf2f4c293960a24d732722bfb, 0x4421544bf22c031e24d6e082e4b59d03a9c4f879c0458c3485dfbdf4e0537811, 0xb1c928e69dd61eeccf653b22a6aedb04682096a24bf13261b5117d85ad6c84b, 0x117fce5812e532601af514b4a5dea5acc0a6fe9d20156645ad7e03ef40534eef, 0x13c1f31e20041779af825fffd072ffa2f7e071fcebc82a0a6bedc423559af4c9, 0x5d689bd1c3208fcee2e1c2b1a60c65e9546fe2ad0b2b5a7a792da111568d5b28, 0x38aec41161e0cb6b307b8575787b375d289018e84b0ed59e2bdd251be7514a90, 0x2bda87e2c4431c43fd506b1dfcc4520f8dafa5d518fc16e192ef3f2b2e2db5a6, 0xb9c22bd66b2eb46149f4babce9b2ab77ff557586045be34606b0a9136caf797, 0x55fc76caa2fee06cb8d2a18aa09f4affe40852fb4ba7f70dbb4850ce177798aa, 0x5ae3ecf2432abce4c669d0443cbb99d5a70e317d300580a145d35a21611cd253, 0x22262ee0ff819d2bfa3566cd7135a3ec9049c15f4e2e5f4e6d49c8018a74a779, 0x7211bfefa2e431ec318ca0b32ab901e8b35e848a40552ff11f42ad9187afbecc, 0x2b374df99fedaf6e8e9920bf90becb2fc7a046172f851ac3d5a5656021e4e354, 0x390f4d8d2b90577bf92261b66afc5922cc0100599a1a67d6a685086d2a7d429a, 0x5d912ee0bf93bd9b530b36de6585e6c96254e1df4f5622563c15b174186dc8e5, 0x73e0fa7b442b6bab3fec9ac1fadc2db1ad33f46e7fe74808fe25a6bdd859c8ab, 0x386657fd2bca54f507fc987a3de9a6c8d8bac3954f7d82d1862db42e7dde95e3, 0x33fcee765cbd1b4eac48de3a05c777c114df57815e6159caa9b12c5f0a248139, 0x59b700097bac44eddfb5a8dc3befac87534daf0ae315b833828847e1bff0b44d, 0x128d8735fa14234d1a114e8c31043fffa62244c08d2c7ff75222bf94c4d4a083, 0x22bf38e52efc113fc2c92bd679f736eccb8a9f3c507612a107b0716fac6e2c0c, 0x466dffc799ce6eba559dbc0de4fcd24416192890770f147fb7827319f96bd53f, 0x2c33736999f00e5e77a1d3d74e7b2ba9d3ff03bc2b7c017f06053c6c63e7fce, 0xbdcabfa7d427b145894c8328b43b9d1c83f2f8571e5612577831a06fdbf9699, 0x3e7a2cd160476d731a1f6e007d4381d8478a2e0ecd155ac892e01f06ed8fe39b, 0x5213da92268e1a9f75aa25c3c73f5268b3931f70fbdf63a9e439e80ed0f20fa8, 0x5622efae4a5e3e225ada148ba9af0af2e7883d21cb5085cfe5c81f58100b146f, 0x248867e3126e6037b8155416fdc902614eb500ffcfb9985d2fd06b9247012f66, 0x50225eb98658497d111def6c8f57f4103e70c09bd41adc545aed2a557c456758, 0x2e6a359af24d9dc72e44de4f88d9b56671ba63cdb8677ed66ad78bd49e90c7e2, 0x5fdfca46b74201968bc4902dbdbae7def6275fefd674216b69009c9d365d8d3e, 0x331493c2e6c6d727cfefc20cfe66e25f9a5161b6f8dd9309333ffa6b848093ff, 0x41650ab6ffe1a89f698642d2b4871be28a2b3a87784f0d3e87c664b559e8ec82, 0x486d8fbae744394b96ddbc43c70fedb57baf6e15ed909ed70dbbc1507695ea5, 0x6a7060ced65254d979eaa914868972fdfc1e454927b051420e772d07348355d0, 0x20c049ba9dfff76b6b283490ba9926baa9529a06bb0966e559821dd40b50e654, 0x6cbd91ac64bebca131617701f42be596dce7eace62456ca718461e9c24831c65, 0x6686a03bc16590298698a61f52a88d7b4fc8dd9aac186a7d49c8cad5ea19bace, 0x19b8374facba4aabd52937b84440584ee4916bc761d1b992120b6b1ffe52739d, 0x2a4ecc7759e01e2a3145269094ece491302576bcc90a4d3336c9892d4b574f43, 0x16dd1950676045de89de30e8a2a37220674391e445370a09f6b70778cc989370, 0x3b2768a03a112bac8d3a59e417462ee59d9ad530f06fb38ef5accb5774a71ef1, 0x359a0441cc279e3cda8ea991a167261c3832beda17192b83481d78a5654b3a36, 0xbe0dfebd61065c42fd1296c9f8525697c47d4d92d73d6c104a22f9cd2d02816, 0x2d8b04f170efca477f6d604c20819799c93c67b8db618a1639390d2073b2bce, 0x31d6259181f02c25d2a5f7a01891d1d9d4c773cd004e811db74513d9dd0e4313, 0x20db3333895080ede0c97c614fc00c033e1b3aad88458de5bdcb5f062ce984d, 0x5223c01ae64eda41e16af8f6ef96acb5f775f6567765e64909ae8d1c7928c401, 0x3ed838734519ad25cdbb306b2ec42aaa240de0e8605c71a2cb1ffdafe20b6dbe, 0x66f932fe01afddf6cf54df70f648ae4fe581acfe02f2510fb3f8ac5122e24ff, 0x343a323a27663a74b833c7a8ab65cdf102b743344652dde82ca2d04aa031d451, 0x13ad416206fc61a3e9d10b5b5f820cd5fd1c667f7311505dc693cc12f62d9c13, 0x66ab28ebf108e717cea72c12bc7f50143b31159ba76ecf185f564375e6d47f87, 0x358ed79c34da53ce9e52256475b6f2fb8b89f0745b79148fc3689fd6f6431df9, 0x635d642f331bc5b7656056a84c63cf6bc14849a68cdbd4ff83122189c88b6ada, 0x39f7eb40b9178b31cba957991caa4658116b65c28ea8f63f3fb40312be4515df, 0x2f4b7c3b7eeada2271399f9fb2336d3910843d287f76abb629b78ae75a82bf69, 0x6b9b02dba8317d1c8c33347830e68425a4e440346e36cbea638b4aa9fda242d5, 0x9ca4884f1ded5c4914f7d358362feb6a0f9392213fac05047105fc8f4e05ebe, 0x678bc642ec5cee200244c0b80c607ba7463c77da9447267e3c3fc6ceda121865, 0x26883023814c011ce2ecec62b0182fa6b90b5a0fbef7a0bd888a7edc74bf292e, 0x253ceb8112fe5163815d94b0840aab50a60ceb7ac6f87fe77452e3d469ed87e2, 0x64f5d8236a8dc9c7ae52defa1a16ecbfbe45dff54173e0103010e824b0e69013, 0x2c0246531bb316e235951ecad0071964fb26d8e0e05785cd0840176f0cb08e7e, 0x520f1f851d9dc0f2ff5555c24c387ccfd2e2d6588d3073e4cc509fadfcbc9646, 0xf62fb4016097755446dc905ecb7c2270fec8b35a14176f16f98e8419761a93f, 0x3527bdf8eb763c4e9fd8f7b1b57013b728d7a2c7c04dad32e97e29348c540689, 0x4c5150c6fa786c8b20eabceb44e3877ba111736011e58a234647253ac6938c61, 0x2c3929d1f23beee39f99a002027c50b39e26695b6155ba11a966d17e91bf4fe9, 0x3f5d6fc3e1130cc14ab13684f344da8f1787a6c87b3490bd84cd0ac196354865, 0x3dee76991729a35d11bf886e138f8126e815b862f698ae445e50d9f9b92880a6, 0x717cb38e4e86f157580cf7011ce8542b12f0293df469a48e691b7674a491a8eb, 0x1464758bdc1fab85e360e2edba750dfb8ecfb7ca45bd962957e5d754e21a1560, 0x1cd463fd010e1805e81b8eda6eaaa46cca73bef060112fbf23f062ff9f102c9b, 0x4757d5e5515a479672ab80f93ed7b832499bbbd0824ccc614fcb7af2acce6330, 0xf741313b9d4549ae7e180aa52f1b25134d7127f14506edfae080c2abec2c7e1, 0x42be3d3a8e78495f8851a94d1fa2e183daa24e68d3b240368ef5b8fea18f4ca0, 0x12712e9204d3f527715dd35096bc733799c4029286d45b14abe878fc2a89350c, 0x41dcd221e3b5f7bc7bfd0e7c01340c7dcf8688ba24e9d81da6f3dd6e9273be2d, 0x47408846f4e81271e44e4253d3f3c9143cd5c9e366c5e688ca28c3d646fb8f52, 0xb01d64da1910e22cc342dfd1ee8cce6de2c8627eb5af051dc47e8efa4acbb59, 0x376dbec52b97362580aedf288d4043dad114f49650ea48ce6206704610b8dab0, 0xb5e2131909d711824e810c9bf33e0ccf53c4c2321954e692c4ef8f75f1751d1, 0x142e4bf474be93d02d953875917825a958b76ebf353d36987ccd7b603dba6050, 0x569054739738afe40b32ca37c45ce4b6eaf0d7147d796fe3414780cf335561a2, 0x59f54f04cada13601ac455c2190ce70f87acf98dce63d7f0c3e5dce5d2e42d5f, 0x3abd42c0cc6aaef52df7253aefc510855ea8f103782c174cc3ffaeedfeeef93b, 0x6e43f3a4628d1950682ec03bb05a531d40c82b8c49d9a0b681d9bcaf429f4c36, 0x1f5d03aff581c2bcf80aa40b81b264d0bf592fb5119f652077cfe36b73c15677, 0x3f3efa466e0f35cf75000dd4ab588c348936c34fbe4ce8f7d1c5c535615ddeac, 0x5a03ccd3998c11aca21ba2fcf43703cb81fc4dd56809458a6f0decfb211071b9, 0x4e00eaebfc02b8a3222e86430aa270f1f3f916a5d2e6957054be68ceea17f7d4, 0x594588fd6278d363a9bdf55189a85531e28411b55ea00eebde296dcde77c56af, 0x589b48caca939024b5d88e944033d2e34f9143e84a91bca1509414a730b72d1d, 0x66fc6ec260135ae852e094f058d43bcd7050a1a6c4d47a4b8b8ab1787e3b56f, 0x2c1b449c003d24763f16568ccca211b636cc980787a89255dc51f26204a9c4b8, 0x4443ec43a56aa229374ca0b41dfcbdd254b059fc342f8b8ed165e575d05f9e24, 0x432ee541696f6941bf8e912e33ec7a5336ad201d8e01134a4767f93cc2e5330b, 0x222d8e4795aa71b47bcdf54e9c0bcdbe8ce47087c850dcda926fe8faafe000ad, 0x3ac76e571747d6e5dac17ee4697532e2bb626dadf513907dbb6e996117858e48, 0x1423adc54e482ce13676c265a3a8f056f8d8f4175bb6fb2057ff7d5ad2fd75af, 0x796353a2ed40292ac6241949cc1e2cd3b4813c31d685ac8abaf8cb585123a58, 0x70c4ed80fb1a8eeb7590e607f911797f0ecb1f875e4bfa7984f82386ce5eceb8, 0x708d8da28e819678ef4ebaa1092ae51c8484d244283a5e7627cefb02856d603, 0x6d6094a3d75b53c1acdce783518ede47f363001530583b1672ca0afe46dc98fe, 0x44b5f5f223e30a1666cb071071ee49837a210770d714623a3e7ab4ebd5ff31e3, 0x4c5d6b990a1f233124f86edc8d03ba96d7508cd5b06247965fc0c199267c1148, 0x51a781dfc22492c24d5850cbbd9ddef02f408dc026d18a0213e9b1c0d08d79e, 0x4ac11f482f9fa92b050eed5e9f851a3d94544ef0c798baea7ec0cad8e776e2ab, 0x60bd52d84bc1fedbb798f647f9ca3b83c8c183e69985e86fd681bf46639ecb04, 0x73e579314a62853bf1419883ee0fb940349f3b19be897fdf98d923c755e1f493, 0x5055c7c8c0b5de3905374d69c5b6ee346be8348ca78b1eb67c4d87c2ae0d641c, 0x2e368a56444f7d3f235d27750101b0e797a0bed848aeb2d09c36ad80b0614b14, 0x17e96ea4337f7f860300e040938816b6314419a517d4f82f6163886ebfa14adf, 0x2294db1d5da574775b8a992d9dfed87e0b60867219c49418506da0d5337e1444, 0x43875598d447e69ffa6200f04aba28a9debadaaaa4430a37c21b41329b6f0a33, 0x5dd6e9ba3f6f03acc6b95600238e12118bfeb20983bdd5d590f1e652e6b42880, 0x4a030c192b000d8f2b160c8f4d7ea0a86e0dd01548e34601eb6c1acbd3f4b02d, 0x1337a88b5cc950a204ac33ca38854120b32b42ff56ce29c818d1b2dad8dc4a8a, 0x26ba107d9a0d9c584e7e0e80e0715078e7ed0738bf0d0a89e9ce2bfd5e52392e, 0x5de0397080f9a7c528b1fc623fa67e1ba321c86d67f0829afe0c34a6bfeb9774, 0x430d25617e66ea1264c345b8c0cc4958c9f5a82a34b4a87aec18f44bb72d5788, 0x38e6d01cf7b584cc68aa063afae22688bdc2b991e3018e39590cf0d973bcf0fa, 0x2d77420abf8068425fd1d70215211a9dddd23c4303052ff4ceecc7612ffacbec, 0x42f96e88d7b72e70c9dd8f3e3d500740215824c43766d9c19fb90a4f433e8903, 0x703e29753a561ecc089dc579139b6743bead66d11c5bb4742c1ba0bf9a74fbd4, 0x3751f1aa903b877fa718fdd0fd7f491ae45518df18ae29e0005a72cd58171396, 0x610d3327427d299ccbc27a18c70cb985f2cafafa61739c60172494391111f686, 0x108775f3f8d272a31b18ea4ad73c82d059c4a319528ee228eaf69b5b074baf29, 0x2d9554ce59ce4df995dc594859b3267b610ae4b008540f89ca877c7b4742f7d2, 0x2c2c335c2771bb58612741a4d9c91f7fbcb3eb76bd8a2b7b5fd45d75abc1729a, 0x4a20f637936bd12ee8d52e928b8c1569c54d12876f4b6531ee3e7312c260e66, 0x5c1f7e8acf42b608439e51fec2a3eea0c14007756041052aa82b764b1e54bef9, 0x6c2ec291e1183ef7b392410d2d25b1763c3c726b3283e5745db23fa202be05c, 0x1359ffc69cb0be4ecd854516dfd862a2966ce53aa86f18e1f12f774711a7f05f, 0xe758ae2317438396fedbd2bbe93ddb72461bcb4d5e4d1070a00d234855decb7, 0x7307d144d93ab88490f930b20c28c8a821ee530f17af23edea91dc916c416db2, 0x61967a54d6f40a8d974731f7298c94b1cc6107fb5207127953bc52628a95cd1e, 0xbb77636f69cf0a32328cb7830440b7c3bdbdbc64c0c5d8f9ab9cb47aec00467, 0xf35d55cdc8635600bd1ef726d746fcf2f48a328167dcd3ffc63268fe09a3b4d, 0x4382396614ca27c69d4673eef3becb9f2a1fd9fac164bc47d48cba57ff880d95, 0x48a29e89c387e2a47abf7ad2e6a41f8210ea17cf6e9548e43dc38671744e0aa9, 0x30accfc9bc2d1bbdbc137ddfc3741e1c6e6e9f004327e6591b8b17d471f9a595, 0xabe51ef81662c3695e799a6ab3933944b83799f6b86fc821523593fca527643, 0x5f72351abedb036d646baa6bfcdd2df29936ff215efd3227c4a2668c1a741ab7, 0x73d967a2bae642518520a50dc89b7d7fb7c285ec9763c223ee15ccf600653683, 0x378f92bff2f962cb462321aeeae7b2bd0c6fd143e0d277e6157cb8f8d5846aa, 0x2cf2d51cbefa4631b7a135bfa4574ab98846372b7d0922ba516010940fcdd956, 0x2de3e956d1da2f97c70fb891debd35e7f6d5139733e1159ed19fd25b98a656a6, 0x7189ccaf04d6e2cd21be745f1b61a7b10367bad20ce405466218a8efdbddf48d, 0x6a772a0b084bf010a8f563b7ccc8e714c3c1e339c9c283aba8b4ca42df2efc2e, 0x72fbed5b13d05ee2344c0f32e065fb170c90e90d9345a9b7989f860da54660b0, 0x19b872ab92e366f52184896c74aa38156b48be5ff57f8c0ab99afbe295a8ca70, 0x67356fac3801a3f79aba1565f047c72473eb2c4f375efae5f4ed94424b092acb, 0x4457f7137d0a73acd1181aca93fc9fc89931a425f0b9c614a3ce51f901ab46a9, 0x458710bdca091fbcd8ee5ca0a3aff457b2dcd70598f3c731902adb2234323254, 0x6c6aaa93c3deb431de5c9219275f22e8120dbbe0c9db156427a0f35e95487547, 0x4e5f168abb7d6a5abf18bedbe7c1253b3e2a89050a4ce8b8e0c068ae170ba4c2, 0x679bfd70bc067a988a9424e7c4979622371c893ac11a01e3c47e7e4cb479278b, 0x18084e8e396e173aa91c9491fc31ae204f523d3cab3f68d25b3166ceac8384cc, 0x1c2145d23590429cbf6aa094736e151d685bbc2a3a9fcca26a33ba9214f099c7, 0x3b727411d7b8dac6ab1c1f3bbc5b92b1f19e7c5aaab3d9647d0a192306787ef4, 0x578c56981988876b6b012d9b9273509c03ce0721fd684e923693ab8c9c789f8f, 0x73d54b9bce134f8b32d195b3d646d4644158c6f9ebfef429fb4041b5ad444687, 0x3930ddd3f72792ea82f7ac91ecc803019787ae3abe15980ee88d8dbc4c35423c, 0x54563d40eb66fe5cd525c8f2ed38890f31e4ec549aad97fb2df157154fe771c1, 0x5af7f48e5e3d285b97d69fc3bac744c465f5f48945425813f84bc085588faf95, 0x4598628f156ae2bea66efbe34790e448030911d4f4dff588635974db3c5f34f, 0x58faea1598fe07ea1c3bcc44045e5e4c9a131718984508b425737e03f3664cfb, 0x5e91031fe00c4bd6f6c75513b95684ed323f2d58161c00c919bf950382404797, 0x143e57822e0a5ec2719fa3d4f2cdbc6c333ea7ed8f0195db69dd026cd4f8f983, 0x30ba2e4e5845a877604c9469ac862ce75415ef44be0bf0ef43c33792c187034c, 0x49b94406999b220e55edaf3f863c0763ad4908cdb8ce5935cc571bf32ca0f23f, 0x21bcf6e05d2b3aa6993f7c532b45ea7da5e88b57aee2c3338e705c2a8efee895, 0x59852a2ea837ef9604c92228d790431b2e24a831f094e2999350895b9c183c6, 0x66d6df32130e930c0b69d03c992844e4f69e20dea1c8fb2e5f099c74e0e6b8c0, 0x62e21fd61e3c0d1275095f639ddb18614d6eb7671c462f178b5ed6257ce30b5d, 0x3d8248f59d14b2fff8972b80314fd5d57e245faef0d993e09d13ebaeb8f03bb5, 0x10468deda3901e6cf50d0af45c4bfc5d8bcb27cd1d7935564e18e76cf8c08f95, 0x281364f3c91eb43d15c0292c91815462199fa22adf9c62b21e7314ab0b3f72e9, 0x35c9578434140db0e10898eb09a922e4927891109f44d5f2cb19805457d01407, 0x67826e19a5cf1788d80d69aae1c59969473c42e5bda89470fb530fba9688c678, 0x1db4d9f6b58ff281dda435a183c78f0b4c9c52fb8c416c10eaebab164f6bf15c, 0x4e7531adb48c070bbdb8db9421ea9be3ad36c50335e24ea7e34e39edb7039712, 0x3a8d3e61107bbb3bb49970a45200f9958c801e1a045d1a3414e273a50452abfb, 0x5de98687cd5d239355a5a3041993481dc13fa90a6df8fd45d8d0c39a6023dfc6, 0x4215f4cee1e66144be5ed7daa4d6be7310518062a9be14ae6a0c9f516b23362f, 0x71cf3bc2ea8a2eb63075bd1a5a1972dd1ccb72dd868fde02d03ac5a3904ff4aa, 0x4cf8701ede755e934881995445e5bf3f4670ed09cbcbadc4051b299acdeb0ac5, 0x615b21508c4eaecdcbc4b33a5fb37843fa3b1a2347cf8e93de200620362947e1, 0x4b4095d0840b0953c564a51634e28a16db3a423178fc6dc5f7ce4ff61354e9cc, 0x3b797a2678314269432c159ffd2458bbdf77655a29d638ab0ca6a917d91392c6, 0x427b43ac8b1eb16302a8d26976acea9bcce5751271a35f0871c4230c7e76e988, 0x6b3932f327b4d4b8386dfb18027f7b1aff2387903f50de5e0c0dd3f379b33944, 0x19f49fdbb6aa50fbf270dd71ef47152caaf4fe3f3b73440484414a4137ad59e0, 0x667be68dae2cfe446db55474debbd8aac86b7cf85b331b6f4d422bc130a9d6dc, 0x5bde17a0bc1571bb41b44530995ed7328df00f0896cca2ac89ef7732fd0db80a, 0x892be24d9e5ed4432252bbbc9ee69553ff30e2f7e3846580c5f0a80e00f7154, 0x159f7b58b94d5fa2ed1d2caed0cdef82edf6ccfdabf4d107b93493e028fb4fa1, 0x19b44e7ea8aff92ddfe72b24d2f4194330c294946e16a16da4ce076a56cf9617, 0x144bd24d42dec6ab90c1606832df3d8d65e679c2821361d2a54ae484154a09d6, 0xf05857bc49bf6e6c919230eafebe207227bb69c4377e4db4fe51736c324f3bf, 0x45da9320227159bb20072d483b0e2565000b95adea9b492d0f692977c10c8aa7, 0x4784901d0387b8c38ca01c0a2805249c85a2737b3e100dbd3b62d1678cda737b, 0x33f12ab752890e95081a8f57e35da6d3dcf7d8088435762eb7b7c655a3d223df, 0x4dac04708832c31b032f1da35acc34648582a69535ad65b7d288c5d47cef8ecb, 0x3d56832631495cd3f42716c904226e05a1a25d3eb1917cdf1f4c4a6f8272b082, 0x2f66867ca8c309a21cc0c266868c1a75d013cb94417d01bc0c73d69332d57e80, 0x3b7ae0d7370e4c039ba3634b0e9b2923a2bfe76cb3c2619d0c3fd0518153ba2f, 0x6e4513269b1f0f69e8741c0ba475d0efdb326e7ed9963aa592594573edf51fc0, 0x45abae0026332ea00e4e08afd08d682e67b831a16e9cf1c62599340cb7f0e5c6, 0x33bcb6bebb6e2ce136508bdaa4130d0a8aca181524fa02cd4daa8217c5d90e00, 0x57fcb1364ef3454de620fef7f825ac60081e2d88d990b882c1db62229c52dee, 0x6d32c1addc08296948d703eb48bdbce2503690569825acf62195b2523490054f, 0x95639955863b268695b3c12354776565f75a7fd12fadd2c054b9ce7f343e35f, 0x6e9527c82a7e621609a1773453ae945f8a0e4e418ae608614fd5fd950d2ce5f0, 0x113af77f9a5edfad602794cc0d707a355d303ee638db62bdcc6056dcdc43fd08, 0x1486d2744188a56db39803782b09cd2597fe84157cf94325578c28abbc0d0a9f, 0x53fdf532f8f57ba2f3fa8f0c5cf699c01b04b6d0284a36292a15210d0b16ad91, 0x1b633495e8c3d1dc7e84392f7bb5f175a89bd3cd1bada220108a306c4c794e83, 0x64a385c21ac451796519f5f9b9624222797e7a2e5666b9b9ba804244d58bdea4, 0x14ec2078cd7a198af4ebd48d2189281b9d437648a3f17a645db3a5983b1f33a6, 0x32456648e1b299a287a6132b1afa1b21298af65c5462e6797fcbfd596cc9f62e, 0xe12c0095018e0b02da50c79326342c31f8e99c0cf6d0c4f858e76c1d3ce5cc1, 0x70aa11a3565e9bde76fbc979c34cb65ff018b68d1d081cb1760431d4258bc515, 0x3379ce8da027e0d4a8ed7decd6287b6a8bd54154629f9958dd62f7ae8f63e59c, 0x29a3334c27bfcc792fefc7f7afed1cd53678bac168405faf402249ed3e40f616, 0x44c16507e86d4d62aa4d958aa63b7ede3754263fbe699e860be8d9e2b8d69af3, 0x23c18c9b33ff3697c6ca6c96932f454f72d68214b830a25c003c610f050ab5de, 0x4647cb3da40c00a2ee6a0525ac161f71f91aec1d1bdc839c0fb387864e2f8fb0, 0x35c95946f72b1b794f0ae69d71933ba7395900d002282b161b68c59f14e8492a, 0x2f88a711114008db2e2c905b0542b37e5ddc0d01f1a6fd6f795c267308a18ac5, 0x3e25045d9471a00c7fbe84b8f59acee99d067a56b7cf16e9ff1974b0d19d2471, 0xfea48bc40aacb4a7969c20af1a93b1d128acadb204dc2bc1c4d8c1b4e0f95f2, 0x183f78916e00147651cdf7d498b8ca33bb48f818afde10df9224e420c2b0672f, 0x49956fa8645ce210d004dc8d7a621083bb2d451eb9a193e4b12678f075cc1dfd, 0x39a4f0397c6b351ff315ac19e6bf122990f5aed72940137a1768036ee97f61b1, 0x49f313a3eef4ac6e56a43a52e55a9b5974957a39a1e0a014dd47785f657224e2, 0x576022e357b7fe8e2a61c67d80f3e00269a92164ce6792f3257cfb2e9f49c718, 0x582152bee1c5be92bf75136f01c26c919520a7f727626ada992ef7e2074b04ea, 0x406e55f77cf48a423e7c951042d5c358b23c6f50cf4bdeb4e512fe184ba08579, 0x1756f1ec29c8f201aba7c271b256c1174c6c7973536d15773d70f917a7c47761, 0x2d3f8dfd301ff105d4191103295126b1e136d7447dc70b0af91bd7d96688e7c3],
    M = [0x69426c93d2c7eca27dfd2adf6d3b4308f812835cda27767f1e74ed19f9d56a86, 0x3684e3f44e5e2cf1fa5fd8df839616efc91e6586dba99aa846c75ac102aba128, 0x5f15a7060ff0ead7cd96ad31ee0d7bb0a551c988f0e49f524ef7e89a68358045, 0x2bb3ee76d4919ba609bf4fbe53c8b78826824e24de2fcc6fde2374ab02c855e4, 0x3973ad0b32e165f947237713ade6c6fc366f1980464b44a3a0e59547df35f16a, 0x1edd892e7cef0daf50d7e164ba881346919605fe2f62f4b9877e4cce5f392484, 0x2c50a8afa5c648c68a3adb86c00656449b57dea11664d4ce3bd4824d6f60e0f7, 0x3147b73b4fd54cc3aab8e3ef9bd539450a912bb5021d2a57f652e3c7f31ce80e, 0x28ffe17b1223da411778cd8243953980ff6f8e6f619cc0bee82040c31386dabb, 0x46dd2ec61aa400d48a0a24f876a6e82fbfe114530ffcffe69c7a9abb2054759, 0x25e0eabdef8ea937db0dc5ba9a6c4f27f196e9026df4bb790ccf8e5781903a19, 0x410adc7a12f4689c686a7ded86d2e0144a18c2a988d347fca99cc25d53faee0c, 0x69a1d4b90cf6789e000769f6fd71d76bc26181078eece28a1720f337a1c5cfeb, 0x7d062024458de15eeed0adeae9d76a6d412695d84b2d76cebf7d7e492c403d3, 0x35af0566edfa3ad0159b101400c1d428639a28cb096ca247af52d62a0c9363ac, 0x2d627a2f6b6c3a59a6672c93145e4316d7c5c372b1ffd918fcf096dff18c9f5a, 0x459d7944dc57703a861c8fd2319d5b5ca9592e5c9200477be44b88d1beacb42, 0x63bc9b92037076b85e9a0cd65a5c680a4d833fae8d5e04b358005a9ef4922db5, 0x41607d5e81f0f9eb01f66f26e4b8faab73b2c36dcc7b3e216e361e5f1818b317, 0x48a5e70e8cba5ee479fb65776e646842c36fc1a132948929eff1f4270b915415, 0xdf6c31a5c81e4521fbfb0cadabcd7a578b773e92e356378ee6b35dd558607c9, 0x2eba8305d3602cd30c4fc30a79165187d7815c0240a55925c37f5a42d56b602f, 0x2b837452311c254c0b383460610e740fec6ad87e7d6775ff36964f59e5e8eb3c, 0x3c37ddeebcdda7f937618106bd7fb46edb41bbc44a2dec8f42dc7946f2f6c478, 0x6a9f9179b228d84e5b37458e557d881e43c34042bc1589a90c6010ea0452c1fe, 0x9eac7b7e36b700d044ea068b4ae280ac66e0f7a9ade9b5ab217008978f97b11, 0x18ba5e41d3ebb2a0ad53539957cc26ffd4d6e4d3dd93d29cc6bc7bfa2e502827, 0x704c3e24f09ad36ae68c3868b14fd2e6338a5f1c136ed8a7fe8bebeb5a95a941, 0x46608b628a5aff0d7d1cc55b2391d956c0134fb8490215b633e4f22bd1a110c, 0x1b5f8c90dfa0d1116e641b5e52e838a4c36f1eb224bfe13e966433d515068e4e, 0x2b31684bd43446d231d0b088464ac112c293bfe1f7182db2c25c57513bee5219, 0x604e59bd078e8e52c812b3baaab6ef90aa70323fe7cc16bc950d766060029d59, 0x38d3d38158c0766773d8dfdb891c3b81a7c2a6b57d95495d2211bb735c42b04b, 0x3cc9fb60afa41c2ded8c78faa79dd5c3963078c934500c667a66e4feb05088af, 0x33cc2827cd76874ccc2a7ba0e44f25b65f2f2dee3d1473670529a4c64a180d66, 0x2869426e23cb7ab26e1f9d965289881210237060ad027c5bf22a8b54208c0e0e, 0x22771a7d13d98e5449715f89b038fb9818c01091806ce8327d122e0a289f69e6, 0x6d027ab6f0bc87ea26623a53e8d91126b37e58d977ff6cb3d604f04bfc189210, 0x41d8fd3dc76fbaa7c608ac293485fafade260fe21e655dd6a34eb2aa5b0901d0, 0x1e35dd6aeefcb2f65b428c9e5f89a90ba406842f0f003b0b5928e7c10247eb11, 0x4ac8e4b9b62ede2043874f40475f0e7403b50121be8f5c71a91e750f6b602c2a, 0x8c9d406e4a9858afea3bf49b23983c57727396ae58fda8b8ef41ba56987a5c2, 0x21ca1609283522d1493e0b57cb2cacc6f9df3e89de4fb36d34cda9ba8a928112, 0x6f85d118c75a1193a104880d8c08f14186ac20c91078baf2de9b3da7162ea2df, 0x4acb6b69c6b52f21609a264ab1735dff9817549f3feff3d7cb60ad53c51db89a, 0x674e136cf43b1b3191ca4d46250b75d2e2ebaba7ad607d8b5cf6bfbab969f136, 0x580867d86614084bf89f7730052fccdbb32277c5a6a984b3015bfc2ea9ef6d61, 0x5083a9e9bbab8f022d342379c67fc54decd5b107f15b50097621220a1d1dddde, 0x56a371db3739e24b88d648f217767ddb725a5c49d387f24a7cedbd3e0f6219fd, 0x26c608846d921fbff16c248cdf2a0cb377592edc784111b2c1e1ac47429a05e1, 0x58032decf475ba7891814d4d45c893b30eab8e55dcf04035f27ea4bd0fce4cb4, 0x30a8d5f39270fdcc51e233f92cf72718387375a119bc5d3683c7b4ceeb71cb4a, 0x6f98c11b7293d38c7e973e80b2741c25279c2b243333811fcb0913b65a87d2c6, 0x7d778f0c929313cf9f472846bd39ecd00e0fba9a823cf11643bae406d8e9f7d, 0x58928b110bb1d569eef0c8c1c3f3275462d544b56bb78c1657ac1542a5dab8e4, 0x4e9b83c9905359ffb335124e61ebb99cfa30fa6cf8ef4c73cee3da866b91657, 0x50a891fd1713ce5f51d1bc022c104818dd930eb5060790f5d7e56456e3eccdce, 0xc55fd53c3b631d329f258edb568cba2a2a57ae477df0b02a027e7bcb41f44cb, 0x71ca458226e0696dd75303a46f1dcfafe5dedcc3a1c7f9d40784e57145ff2a2d, 0x6ece64427f362fc11a0ef6cdfe55c4e7e0d77a2016e242a22aeb5d33601db5f3, 0x623d68459582dab7501998b71cc210b1f48bf6509b4f3d791920d1a793be19f6, 0x7c0d1e9c2e4b9ef9daea7d0bb267e34097955f6269c73dea6c08550df6e4ee9, 0x61845489f26736e1514198459f14fad3468064903589be895c3dec8c473f70ca, 0x5b39cea14990f4719f3af9ccb4b410fe2bdc4c8717d13fdd215b7763b716f788, 0xf629a5a6d60033effe958e8b58835db7e359e56035db68145fc12b677320e09, 0xc3f9f23c0afbd9fb06b4bec2d5db9814adbf26e31137a3ccb9adb58bf8aa913, 0x3e692c886b7675712276ae640184231635b0a9beffc721c92f202658c2deb5b3, 0x6c9d6f0f20f7f256eefa5ee24ba26cf4a9378cac3b1693e05e0e25d315469d5, 0x469276ea06a7f58632721a4176f68d1aeddac5c5f8ba7916042e6b796bd9c8a5, 0x575069748eba1c2e607fa6827f25aa3922d59bbb81164203ca8003eed5387a07, 0xa513aaeed1af4da958f04a7c218ae3e932394deec1c147ae980622903eee6ae, 0x2f15e8a0f5dd04d91fcdbdb596635f76bbd096367e7b3b73cb35d3d6476256a, 0x32bf22992112d06c66bec4eeca99d5e2a4201503e83b05fd35c913da26dcd436, 0x479d499af2c3fa8b47fb5296329d3ccc74703525f842920e01f1cd47a0550665, 0x4e6887cebae1757800f6674cfb027068909761d6f2102c19ae5652401d2704fd, 0x2e5be17e72d9bdfaac59930de7d36ec740c993a0325506c0089d9bca961c1ab1, 0x3ea69bb00bbe781e802622eb26d11541ea004e81eebba7b14943ca033c07a25c, 0x3be4ac7a44ec5e0e7d6645566d18faffc55515cc8be09f10ca334f9c1be16a4b, 0x2eac09b1f27709da0de6f952dc6d96be9c3870dd0a0f6bf8e5af2aea9819c37a, 0x40b710869d8c08d6a443b8ba2b5a7d406a213f1ba1d42a482f788a356f902594, 0x9bc35f3934429b0b715c98c3de5195d8e433f91d47b8c3102ee07db4c6cbec0, 0x2605f5b4c73d6b4006e9962da0e999a0ee1e3187d8f4ff1aa80be1aa565cd942, 0x5e3ce68d4988cfde7853732c189e79d87b75377c7ae17736f3343f9e4d3e6369, 0x5f3f99b89363fe49d17010bd540d7d8c66aa0eea096a6fa13331c944807fd97b, 0x4d9af8b042a8a53965f5d82b04980d03373307c690c2a9471fbf45f6f9c900f5, 0x23852606ca3fe78fc18ee22303640d03c5a900e183f5d20ec57c0b98bced2d4a, 0x649edda1981570f6142bf129efd7a13a9b25e8fc6bafa8f36b01d606f9352d2, 0x11203cce4642bbf0492548f25603bb60a838dc255ee3c4463911d290ab0770e3, 0xc1bb21b9a542cf06b050e1407000e0fade6ed63e0df8bd9ef9f75bed625b719, 0x4795f03ff5171bed0239c35ee9ed483481eb4d3ac14e20c631a8ae30bb7cb4a8, 0x58e239ae1aa24f25fc2bf7037b0a98fef1a96464b190ffdfb10758aa2df6fc68, 0x667ba0ac1bfd9a94b71314a36d13f187ac80927dda932a5fea7a2fa86f7519cd, 0x488d0b479fa0cd5a4c49c38a04e7b1b0668a756ef06dd2b938f767bc854e8c3, 0x396e2ab90c83a994c195917aa004ecde61368bfab7230f2dd626f10c8acf7a8b, 0x323e85b286c9d19db3bc765446e2bbf34dddbe4e7ed67d49bd072ab4c1cba751, 0x4730c77b03abc3e9eeaddd08b5ba1a5cb88032048b5eb78dcaaefd6defb85a9b, 0x5a27be4891d92a3cd0a68c62e2e8810ba3cf41f8f31a9015b38bd61f31deec13, 0x3f09988bb15b9a8fca9ae93855cd21ad3471f71cf57689cc1881a3ccc3378ccb, 0x4e9b9e4b2338ed052896457f566da15c771860f3c5ea13eb54bd26af5c7e7359, 0x60bcdb8d598a1c1c6e3e36ad1618bd76beaa281cc4c2ad670558a089a27d3903]).* from "../poseidon"
}
