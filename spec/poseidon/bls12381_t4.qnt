// generated by tools/gen_poseidon.py
module bls12381_t4 {
  import poseidon(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513, T = 4, RP = 56, IDX = 0,
    C = [0x1a3bdcbfc11dabfb6ed0dd5f5a9b38191488bce9eecd811c10f9378b32db8c61, 0x52b733e857912fdd2248dc9638dd79b1ce18b285b27792238b44c2b23c0f5d5f, 0x47d6df02d73e6c78ced550ec8df1a459ac41f318d8b904a37652b581b2b766b8, 0x11ec284726dddcf3cbb2b81862c9cd95e9de81ce0317302e1ef432d59b913388, 0x19e21d749905904f3e10cd57f7817c2564c06ec1b1e229def2129e79a7a77738, 0x6eeecf4c83e1ec164217f3c00956d83c3bd845bee2d86b263cf3bf89a345e5e1, 0x10d5808ab47295f7a950dc72f968398b9c67426a217811b9bd7e97f2a261992f, 0x25d334fbadcbfd26449c4ce1472f961f7d401a3ddf40a70af5c10ac9176d151b, 0x3ef8a46ec07ee551ecba60b1601cbf6e3664418331a254729b7c6a5c3d13a6c6, 0x30d373e298c09d2a6efe661d708fcfa6163dc61ae1eb103d98cf88c63e482125, 0x18769839949b2dda9ef3f111acd86e10250ffad4c4c4263ea970e4f4726cfad7, 0x2c941286d1534ff3be3a66f9dd59833e65b1fa67db23511f7b4b2ae3b3d66bc9, 0x8b6d9c90b4139ea70497ac8a22b30fb9b76b8ceabf70449d282b57d98c60ddd, 0x3a8a2dd917222a71ca678b5c0a803a43c62de2f2c9fe37931b5b2a017fe64638, 0x2dc17308abd0e731b3cffafd296cc3e6e2403dc563baa1c797a68da9754dd207, 0x1d04e542f54431c23f9d1812392a0c87203144e343c459d3ee640b04e203be6c, 0x500760e2ef6bf463fdecbf7b47f4adaa8214c797e59359439d63169e1cdb9dfb, 0x61f36faac1c12d756dcc3b5491f2b22565409a4e952b8f8e726ee126c0e1c0e6, 0x49e72db524a48243849fea068e58d0c078b0c738cd482a2e2160602657456ccb, 0x4a74677fff94821e97b20b86063c36d35c6a2908c0a19a9f130edde9c8ceb6b5, 0x62d27fd5080b44a436e13066ce1c80ddef2af086c2a4806bd99fa02de9726ded, 0x15a26c92fc51dd285a61c2c1379f6731377aeb29c62696aa6a9c109c2991f200, 0x1db900a5e9b2685be9f8f02498123ac71bd7bfa40b6853ab527a8d2512b9aefb, 0x6ff755d237742498e0b78829cd8358bdb831e96fef08eb192b7e334123080afa, 0x1595447e5b94a64c8b3681f57068e19ee3696440ef785e35123886311f48cd1e, 0x2b0eabc08eef3abae3304cbb2efc67e7b437bd96b6f7d175daed6da5a2144e8b, 0x3a345ee8e715f3226e52838652219202efb4e6d4f057f904d69d3fbd781e39f5, 0x49eb2a07b5da81b57b7aa4fab19e691f9a684baef4cfb5afb6f46d23cbf1a9cd, 0x3051663ef7de7674506f2c873409725363849564815b8bd291f00b9c60b4daf0, 0x41a632a7bc167f67ca9c3825021a05b13f81f814ee101d37716e12efec3121f, 0x6a5ae006b70bfebc1a485eed2c078654dc0f10514e8c739ca2a7019f42444ce5, 0xf3dba730b64dda2bc2eaa50ede0fcaa86a37c74c3a17be97a9d969fca21fb37, 0x6d6c02004f2a4cbb965f9e73799041fafb49f61aee66232f45ae09972af08e86, 0x60391f436a32fdb0eeba8578313579c04c48c126f4eb6a0c49e249ff1c1fbf4a, 0x570a30710a42539d4440ce9a2cc7d9ac102409a188960d0fbd249fc4352bf3e5, 0x35cb6ce55352599332471ad8be46ddc0cf598e0e36b8a8fa5fae6f26277b318e, 0x48a8116b254b171052251f353c93ca3816734e4e0baeea10b4269bbab9a2be55, 0x126258211a4bb2035121c7ca129eae719d4ddfefa99921a8befb7a160e0f845f, 0x5bf6985473bc5500f140844f5b66cea85815772cce03596eda60e6c7dcb4ebbd, 0x5af46d3dd02261d893c418582188d328a8a84ff8f6ac6c1997d3aaadf64220d9, 0x5e3c84925609016da58df82c1f2b51590e3b91e5502dca2eba13d8354916ddbe, 0x410e6fb4390379a8b726cfb22a9eaab7232bc4b60eaddb629a4aacfc7dcdbfcf, 0x2ca5debb9de1c4bbfa0204543dd9757241611cd28b5eac2d7f37baa293fa2618, 0x4a1554023154a99b4572572ccd5d89fa8745c117a2a85e5786ef6ef39410d611, 0x2ca75fb22881b238b6c96da6b908f922da8b54f909237051775c64fec8d5920c, 0x546ea8ad3dffe14c4c96e4d6d8c43c644212fb663486165b34cb26ddd717f341, 0x6b168ee87f2c532efdb378116dfe462f632a18eccf1e9bcfc740d35e535b2735, 0x4cf917a780b850292f44502b80865d3664d75213f89e8ae5861dbcb52aa95e76, 0x2e8dfe9046d8b951532466bdf1b62571b85e551b34c8bbfb1ccd3216271b73d, 0x4a34d2abd01f09f743cc56a3f87febd60ae5d88e224918d840656da973d9252e, 0xa3fad26c6318d471fa376fbaf02d341e41e687db6f3da88266de21c7157e940, 0x131c9df7176eadb9af3a14f0f53a9b87196ef60bbb89b3630142ff8d9d69137b, 0x5753682a8120106b42241c86deee879263d81fe8e3423e01f567316d9524647e, 0x5ed9725af6a91090027acfc12100733a9dea89771048aa2dfe40daea9546645b, 0x2c7b7a87f31ebd2464be9f211d41719b453939d53ff7be07a2cc21741d48b467, 0x118159eb07353fef60e9733077cc82f92a6e2bd361c88d8122e9a292217757e0, 0x5b4626e787d4a4b00ba4693fd7900ecaa19624be9f2fee6b9c3b538d4f896b8a, 0x18cad22ae06bb0e8d043f7928477219e4d38ac544ce81c4c685267089e4c7003, 0x511149594758e789b440ce534b52b6c508ae1881669d1fa4a7e551ef84e4dc4, 0x428b8532efa194a7f5cbf4c296786346ddfcfe8f2bab26f25321f5d984dfc307, 0xfd035cc129e91eac66d841e2864989d1ff4853662166143535603bf9460621, 0x2c167565114475412c76f0df1961eaca9deb17622c9fb6f5ac8a89a29f42df69, 0x10cac3ff02125419ac84ff80295589d1124a1e65a94e8d9b63a411317c7f5728, 0x7213c2f17aec536d0a5196e877d1626a63d7db5b4e3bd77327eb3617b932aee7, 0x1b86ee2e45fbcd59fa43edee6630dda5cb3b894eb4701eff5fd53967abad2666, 0xb941850091bd16875f408f183fb93d250c538e5ee1e8979e960b5b499b2f070, 0x31f75d53bdd5ac603c252925148a74fa5f3bf5d9ffabe64c6e932be904204ec, 0x55296a48dd399c65798cdbda11e89f26f998f2d33cf328e87a1c364e05be492b, 0x191175ec337e64a48785a083559176168bcea3db2822630c48f1d497d03e1e35, 0x33200b518e6b1a1e96ba214cad18929e7f5b4e3336e522c5fa1febf69c0818c6, 0x2f989e24f97dc06c075bb53404e3eaaae32a1b6d89d9e09acdeee65712aa4216, 0xde4b77163f1572bbaa325f48bde7a429b6b0f803ade45a0e72cd2bdbd84680c, 0x6af270d408f492402b7271432b6c443abbd1f0e220888d73f47498d59044d7cc, 0x3d5b5310e7b6be63be8f12594ecd68108f4b3f6266683b13178d0c80d8530c2f, 0x5f69d748d06e22916088bd21fb472334ddbe5223ff494b6c0dcdf62db69d43ac, 0x6c1fd7dbb3298da86dfe5d0435b26e0a91fe6ad6aa25b9407d5da544e6b9cd27, 0x37172dd49bf14ebca52e1c31b60f31de8213644e330bcf2cc59684606e62537d, 0x509cf829b68e58861c3d6bce6046ac1b6e9c065378fe9556348c0c1814808e20, 0x529d5dd132f5cb4b71994ae6b330b7944f0fd8ba319582d2414b9b10768b7448, 0x5d251391abee228833dbd24be99d163ba9f8c92a2cf73a4e1f8a87e9c4ca97ba, 0x1abe1d77226f2eff6f1a6bfc6c8d9e00dde1da9d67858e6984e53bc2aceba535, 0x4ca74ba72baea6d84fa8f2a05e387a1c41a5a1b2f1a479fb11bbf9d5e09bd01a, 0x232bfa6a3120224814967315ebf3d8c88b2eb0ea8c20c79ce854f90aec7a9b91, 0x109f5bd722c8cf28ab6a3852970bcb665f398a8dc9d331958dc291d49a1ba9b4, 0x4a181a5de6c79a05c02533350ab51deee24b8f5b9154c5cf09ba5e25862ae176, 0x6e063b99c16028df94b1eb719164ae8c8336894791516ca2c37c5a1a394bb0d7, 0x6bbd2d3a643d301d25a8cf156542165abee3039068fecf501e9d39f313ca2a87, 0x4690fe1be7c7b8c10c81e63f5e508fe93853c61f0435f81eabc9997fa3b99f3, 0x6184e3be38549f7c0850cd069b32f6decbfde312dd4b8c18349b1b3776a6eaa5, 0x419289088178ad742be6f78425c0156b6546a18fd338f0169937dea46cfb64d3, 0x3244cdec173b71a4659e2529b499362dac10cb2fd17562860c8bb9d0fd45b788, 0xf0c981dc7da9014f7fc767217acb02b5660e6f965da2f9d27c0f39aa96ffb05, 0x3eb3e451848da858f19c49a5e8ed645868f7c4ff3936e72764de40a1dcf74994, 0x2b22aac0b5767e14e35e2b77cc2be87bdf54b14a37fba4faf110e8d07356c8b1, 0x3085943bfb5091697c781c1f9681a0316bbe5bc6153b56b88bb61d3574e18113, 0x13fb15ec707fa4d94eb197f2b826652a42d8c7e3a6e3c651c7d1384534c8f7e, 0x52e0cedcd2eec16e0272821b105b59415e283766123e114178372c00af0af328, 0x38a026b4999d31f92ca4a4778f3833c156649acaf6163190c89e33d4285e842f, 0x53411fb4c845a384b36c21a93d78e617b8e708fc5f3dfb257f2bd08a692ea7ca, 0x2d3beb65776c1ff767423cfd89e0a1114e75d6bc96a45f3f767301ba78a3d24, 0x1ef50f896ea0f7159a64872cbedde170e16616db53f0c738c09563f96772173, 0x289ac68db13fda856d5e507ec2d9dfc1e2d343fa2ea66b822446ea3dbab3ed86, 0x2c58ccb44d61ab303d49c1c30a1e4cd07ad9fc8b7f3f0d78b7bc5745c9b711ca, 0x15e5a3baa70624537828a7dbf0647e0d7507435e339e413891ace5f29ce078eb, 0xc14cf170ef5573850d0d8f285de9fe17c6e779c821d9913a113739da39e8e04, 0x277d88816bdf7241161fa38bcc427aed769613e195e72ee70629f35e06659d8e, 0x465aaf569dd9d0626ccf3ae12f493ab18cc00524b99467330578640771c67f0b, 0x33afc46c06564f1af1ef0da4dd0c4cb8ef0766c819489f5f37f2c228f4307e3e, 0x5023f7a4ca1254c319cb8f70a62c2168662ea78d1135df69f0465c7392022262, 0x4a9587a2f2ea56d03fc4b8046bd808c37381f4bea68a3be98ef922ed458c56d4, 0xb8485fdb3cd81760bc9e4d26725a140932b272e1e9d5296298e5f869a89b9d9, 0x5eee00a428b0a4cd96af0558c4ed70ce979826803185a91238114ee9b8c4be53, 0x27d52926466fb81aab2ca23653f180ee3f778df5a835576c44184164f6ee2307, 0x207a46740586ec29dad6aafb56b20c268028b717d466ff36264a114eb4435622, 0x341290e81ba29124cdfb288e68f9efd8ce7369ac1fd8602b4f9510176c63aa14, 0x342facb0775722097b366a3e5878d0e561c0692817a93897baeb6707f992564c, 0x593025dad9d92e7f05efdc0b1345991050ceb5428c265531d3e61dbfb92793a3, 0xa074e297087d24324f072add6e52960b151e431af10a9e4ff7ebbf0ad7fc3e2, 0x2bde7ca24f10248d0d6cfe61f10a55d3e44a2868c51781eb24a2fcc1d1752de8, 0x4c21a64ee9726ae676cb9349f6a9bb72d0c3585b306439fbd0206cbae2ef49c2, 0xbdbd65303f4bf4332d764d4ef1f9132b562c58156e28043e9c18247e6654fc7, 0x28c3fdc637cd545f5039fdc9c395771b87ee289530688b6a35a4589febded074, 0x2da62c361f104573017e1013d5bc837a0ecece8e2e2375b494c9018ee9c5c7d7, 0x3ab1d4fc536f0bc1c53865c7e1bb29b59397147da123e8e0262ff0e51d1ba39, 0x2553a916ed677e8ebb39052d86622b2b07e8da35d26e822f95f179626273795d, 0xe82d473f428dffbbc932a2a0219ac2e69d55f10797dfe0042f41343d9a5a5f9, 0x54d65d44a008fc60ef7dbeb22ddda4ed4ba80e4f1f3ef28eb3e43eebdcece1d6, 0x37e62d7a988a30917e0c59ae31baa0ef4f573bdfadbbc3b26cadb6a7de1a3884, 0xf5013e2713cc048f3e8c06870ceaaa068b0d58397642ead9827b6808a5b7f2f, 0x43c6e67e0bbf538c2b32f6b73e7c17010c358d590fda5b0ed17377d7582fa8be, 0x2d3f5ddab40c0c8894c83ba5042f62a9f86a204921688eb7c164aa4ca5ba6aed, 0x2e6c3d033a391929b20bfbc85e8c3736870ca1b93c7393002c2cc60e4767f302, 0x6a617c79cb8f037743ea4f37790ee655c9f5e14c17059dd2b15d217592275c56, 0x49d75e2b7372189b23f2dc62c5bbc6e3251da52169a7dff3539ebcc7efdcb1ca, 0x2854379bd77d9dc37b4687c2e0d6d4f0830ebcbcc478fded97b6861d0a239fb5, 0x6c0472347716685e5e341e4dedb6018ea6ab2d2068d75648947995080599cc44, 0x609ad724c3d3b348bfd03d161c47d025f58d228226225bd4942b7ed8f1e2bde2, 0x4ff6cc844e1e93d8dbf7268976ab0a8bc4aa09c08300f7026dfdb3bf7d975f2d, 0x1117487e5f2e2a5fce239e86574f617b6e28d9744b8058b32a02b3649f7c1335, 0xeac1e00309bb6fb6206ae31fa0a57aec5aa0b3312c44e372918963cd07b14da, 0x4bbd8ee98533cc0d8c90031dae91db94ec1ac78fcd19839fc680395726fdbfd3, 0x33fbfff73e78f27bebf149877ec02c4cf9e49dacfed909c9880b2c53ae3ff02c, 0x40d4931fb1817a1cdfce3e28c48f4236b55a943369d2412e3f6a101690b9975a, 0x52e1e8e935b400f00ba37de69829ea3a772a82bc814040f5dc5537a419c0cf8d, 0x72ae1bf7b2d1d8a9f831a4a6f4d37fe40bcf86a490f408c81e8fcf2571055c99, 0x3be520dd2ef2d687d3296dd9216ff3d27136fc691da2c8fbe4cb13c92c40c0a, 0x71bcc7b912efabfa4a61ad6b4ba27b030e35d45a23f4c908bebe0192d502dfeb, 0x34eaf350f1df99218f9778d445e748ba4df04367643fefbd08f195e6f1f3d1f9, 0x8041eacd9bb78d0fd0bc93a6a27bf3e784abb0b8be4792d3e558e440de4921f, 0x169ce0ec6424a32f14c4a7c7a2977a981f83d2c464e487c795d4ab196ec2d72d, 0x4767b051e5b6358fd12f217aae53bb9dcee10ba5ffee68f982209f5e5bb27f53, 0x2a59f16a37626bdd5536c5546f046b608c777734990103996730611728cfef22, 0x6388405f3a1e87a1fd3183bb12a89c71d5bbeeb0e4b73c227b1d840f217ee15e, 0xe7c7e19ad92352c35e4d302828f64de68750dac64cbd944f0eba6c0ed003758, 0x64993873a0f0be13c99fb146c2e915e999d2bf162b3c96c1a218e858d5372df2, 0x44beaaaf96f7523beaea3f87c4477b82ff3e106a73700ea809f6fcbc49647758, 0x25ac368f880eac42a093bafbc8833e370a05c1825a410f01ab33a3b566f3732e, 0x41398bd829e078ad91e5f397a8039994c3023c18dc9912b271299ec416e0d76f, 0x7011bcd0823f63e0e21e314fb19b2571fc89ada110d1db89977dcef4de939b38, 0x32baebb570a42e0ccd32fe3ff9b1b09c83d2822fadbfe582f7b0d3e6c840cb63, 0x66993138781f8f72a8591a00794ba3f483961c1365cfbce266da90dfc6710f74, 0x358746a6e7a2896ff624028f561e607204b04930f4a9c7bfa74a82e28b620ae0, 0x6004b2a99aa6b5e0c1be60af96a5000964412424a13cca7c6b08b3003e736d52, 0x66f2d38846b6ed10a74b57f9ebb407ec20ba831e6be6bcdae1a7baf96bd25bf7, 0x34a713c5af020dd521c31be022499e2f82fdd371f19c29a2ec3de1154d8bc7b0, 0xd49a2065f03a8c11d95cc343b9b5033f5f686aa59dbfb170324db722d2fbe8d, 0x50f0c5fcf8569429f071f26b49b6141cd13a0e2ccad0f1e9077794ad0b7bfc99, 0x18baf0e4466fee849f22f1f5d334ce97cf29696e4ebe754f18c5def882543bb6, 0x53d67dee903d495c85ab072fc63a002465493299a8c7a09340d71be619a26474, 0x1d9411b797909021c59edeb51d19910815a7e024f3be0aadabf4281ceced8ae7, 0x3010bd38bcf15584ed5ae8848c2511d72a0e0d8f77efb64d766b4725799bec63, 0x6250ebae2258403d25295d2fec85b464835aaebc7c270f786916d941492e7671, 0x42cc150368b523d18c0f08fc560a984f6f30d33db022f8ed231c605d89356fdd, 0x53495c35de399f5c76d31c9854b6315a307033df510ea937d8e7f6dd6e79736, 0x2ccba4c1efd750b52348fe2984d8a69ec8082de22c0cb78cef7050a7acad50a3, 0x1f4d46563aee745401631d9f9b5e9f0a2db7a7092702aedd214c73b1924d287a, 0x1da13a979f5c954f06c6cd246af3186ec0aa5647f4e1f34c9b54da6a6261c323, 0x28b6ee5ee05a64486fc82612898f07841de6ac234af65ea75044244c0e1bc21a, 0x6e66acce6f6024b7c02c0a5850c731170ab57d5254d536c46d07ba276c88d314, 0x68228f9fe66bd8787bf5f93ac07c27cd393360fafaefc6d89bedcf374798768f, 0x35fe00da8b670bc306a19ea32898e2cf384380f1e1faacb9bb53fd01d7db61cf, 0x375ff92d4b5afe7d2b7fb35e7c2636a61df3af40c61b316dd48c2ca613ce64b1, 0x55ebeca3126f94387530dcc19aaa5966dbeba73e580f3ede6ca9c5ac9cf8c07e, 0x227f8c7674e8eecaade74fd162018207216976947a5f13704fc21c6cbbbe9125, 0x89fd90d4e2e345ca3da05be7cd1d8afa3528dcefdd08dd91334129d60311ca, 0x65b80ee6bb4a0de9238e8eb69258a9e866defcb7ca7c9431a704f284c318a724, 0x2708e450652ff5e286daf6cc902908e8cd0b2ff9f877eff3990d4f7752517400, 0x4ee97ab7ecba2486f642055dbc976d936cbfecf44f64c49d2c0d66faf6070db, 0xa279305ed49245258fc3b0c0573810cfbf02cac488b7ff91eb6ab08299c6f28, 0x263bc79ba831a14fc803b6cb87f95ecd312836c6419acaa12c240bfe72085954, 0x2591f019acbf10e7fc66a78ee289233a50a58ebb1726cd177d7ad964dfb72649, 0x32c2773f2104c0220ec42766cdc019619091c797f92e0ebcd42466334d48288e, 0x77f91f954c6d1364047aeacb24d38f6ed2c8f9d87434044ff2ddaffa4126e, 0x43a52a54cef8b104894f9173712a38e1d71665d27f030beaa8714bcef263efc1, 0x20c6acbba48330b076a7043f0549da736dc455d09716bd121679ea9867a202c9, 0x45fa00d6df85a4f73caf321178661869b9c761d7058ed42846c2f9c15477e7f9, 0x570cccbbb76b5d21867fad8805aded2baf054693bc4ddfbb331823e8dc56c542, 0x70a1ea57593248c15f0b7051c1ebc74f3b6fca29239adc03eb3e5251f65b8333, 0x23f2a31a8871972a472b78dedfb828e74b9e976d80f414023c497cee71341d88, 0x2623a6dabd84aa57c08d945095d0b1e0386a1d0d551a796e56c15ab6c0a88573, 0x5a700c9ef9bbf2ede7c90678409671a5052cc4dc96d07a97174a76794bc8471a, 0x5b58392e93dc08b2090ba2d961b14ba352adabe86e469d552f46ca8fac15f76b, 0x5bef7c911f1b76476c983995d96fe37211bd83719624d552e5436a6b1accffc8, 0x3b9eeac5a9602989e277ac9ec05171095ab6bc19d518501981aa32f3fc1be155, 0x2d9429f2ec18178153a807e4e9555814bc771457a1cab125f71e2e95f3effcf8, 0x52c0c71cc0eae6a2524518214a579a0e4af10a67e609fb3175e0b9b3ef48c53d, 0x2d257f7f163917e23d99c8e42aabd95b7046bfdc7a271a25554cc370eb5f9d8c, 0x605b93d2c070b25201097565e4efea4da3c1035dc41a6f860edfa16a3fb92130, 0xda1fc52458b91e5860a0fea42f47c313558b35e2ac7b2212fd607344b59c542, 0x6578e1f23a14556c1846c9209131ddadc5a6958a83178fcbe16aca8d0c818649, 0x4c1e852dc80d28bfb33893a56433d278813c99cc2bcbdc46d82fa53655bb267d, 0x6cf8354f4da7d38a87f31cc3fad84e590507591b4cd9fc6f453dac185acbc4e0, 0x31062bd21aabe816e7cc4a2f0b349416d52c325acb366e765e523cbc0fbd8afe, 0x6a9c302081344c218d5e79e08e77bd76d720e19d283eccb1d1c6e889b9d16841, 0x5478547c289b073567be113be04a8242bc358d1979294bc79e22aae31d09bf9e, 0x5f25536a83f33b0597074cc0a7b06372a8a165672383953f0005895d1e890ca1, 0x5f90df3d57a3976254c32882800572515374678c8c47d2cc0232765aa122d018, 0x40c6e385a5b22e31c59c6e3b2b227247532b7e0a19ded97e3befb95efd0b5bef, 0x6616d16c84ff8a2fcb929fa81975ddfd9a03436a147f574752cf07d2fad2b80, 0x5beb7d108d84bbaa4604aa66dd7c90e080abe3a8ba5121d608b73a886fcafc62, 0x5a5bea7374768fad445b2390cdedfde0eee214e3bb4d284e4ceeb7f262bd1d72, 0x213e77ff687151a1fc29a60fb4dd63bf3c1e292df69495cf4d98376b2366e28e, 0xc88640bf3a29a0dd37d9e25a86d2705c7a7c3885b18d445ea91b1ecf268c93b, 0x48c1b60584c00147340ec0884d2d9d478df292d7d8f01a7ef4d4be687356d669, 0x1a908e3a411119c79cfc6b2bb1b20ff605e7021902b3ae5e180345d95c7b38b2, 0x5d50629b33b1c031d411c7ebf878c14a6147314f7a0182631e22b74667e29e27, 0x14bc5cc52b8a043ee9b57b13c0f926b2402780c157b3b7f5266a6e342fe4dfa0, 0x2f0ebbef67c9fb320f41ab6c922361b0453a639b9ed15e7342317f2b1e96e406, 0x10f62c93ee52b1d7431d6d5a76fdfa9f504474685052f0f6329c27fc6ea1dab, 0x36db54023387dfbf8bfc95d24fcc4bfd962031e715edca852e83acccb92f4ffc, 0x5eb49b762ee81a3ab49c1156bb71a44dcc1b97f09b75230c01968f8351e01f0f, 0x8648fd3a3a70bd7a44ec37184859bb0c1176ad6f2823d43c56da99029c316b4, 0x232862ff51c9ea4558ebf1d121104c94907a916cbd1bf516b3db5a017c642126, 0x661d7f2a4d5e809ad0f8fe6fcf3d7e00f49db9e050313ebfd9c7a284b30cc757, 0x71a50c66f29a29da54480dbc27b7bcb05c07678a31f3b65bbb5facf95425ca55, 0x57fccbe64a95a7906538eda8dd499b76f2350139abe7c7d27d7b8d7c5b64e2dd, 0x14ec4b09665c3bbebfa6f8f436d96d46860e8ba8df1f8194797f3d52817eaf25, 0x2d17fb6f69370338b1bb855119fec355d442a06d720104dc72cec5d62d1d21ff, 0x162262a3fff35edf6531a16d3cb0f94115d430dea5018e9b89909581c66d0f6b, 0x328f7c3be73907c280b77a716b1b3b6b00fce49a169a3cc6e49e33192d9c375, 0x365b7a95bc5aff9b6e5dbd7159aa8d28f5f4eb6c4b3cd5d530a6fda80072de53, 0x6eb6ccdb8e6eb4360dd18935895d67a5513636982797d53290a84982ac7b9375, 0x231c46dc7af48101e5cf8234b8a41b6bf2c7adda1bed45fcf3632fc406ff5163, 0x6707520af198f1273abb45e9ac607e4a51a928dd262dbc6f3b277e6b536e9df2, 0x60ff8a22f1dd0e9180ce896bcbd11b039442b9731cbd30064b50f5991f8cb05b, 0x55ca5852da0515bd7048a96e1e29b7ff109f35fa7b2721f77e7dc0feaafd179f, 0x6d2c5ba18d24eb3a8695116fda75b71ee01e7516dd285883e89f91e8e8734306, 0x67936473f9214ef9a60824574058e98f704a81172bb0fa6de61dd054d33d3b41, 0x50d83acf90663c7c5418a2b3792c383c25b8d58fb16ee25614069410504bddde, 0x5a7898b12daacb7897982cd665c9e3a094f4aa8cad84d505c6a717fda873fb40, 0x4b4ff353271eb087c6344cf1f94c3be37ac280b1e03aad0d6eb4191a2afede92, 0x29cfd23e206fbe6f9f722f56d680ff179f9673a80793ce52ebb5b9ea1de2da5e, 0x3629bd0af96291df86ab06cf4499d79217247cf2d2b5cf461551aa47ec524f3a, 0x10e74cf1bc38a2c1c0d224e687361b06b3aead22f7ba54e3ebbb2fdc8c6c2e5a, 0x4e91f3bf16423f583db5c5ea1b7485d9c032d62c9dd12d1e322cab3fd838e854, 0x19ddf902f2ad41b08365c726e94db4b8a1e036cc0c0f7537252a85c5e78b59a7],
    M = [0x298b7c2407511920d8e2f173fdf03c8c80d841a04def19fcfe701369758527dc, 0x2c58f3708d5295f39bcf9803995ec4832e8fb6ff53b6621f7ca8b86f916bcb5c, 0x5914b33fd35224fd55471ad751fc62b4d01db650734d8516dfbec88ab333893c, 0x5c49e1934862d807904970e1a178b323cec2d0f7becdc1082ebd56a28193318d, 0x145e8e03f232af259daf27a7bf6d87eef09ad0c6a5070c6529f86fa18f8cec5, 0x4024abec6f929bfcf86216af1568a890d33803dec7e3c584942271a56b82ed74, 0x39602b2f398221ff9fd51bef6f9bffefdf327c657471629e44f9ac0d3be2dcd7, 0x4aeb8c69f52f416f5b4705b3a73a4a8edd8d681b3ba64ac91a76ad9b03a4f039, 0x2d86f821617e6763543bb9d8d5d6ce12f8f983aee87876ca82b3229cd0921da6, 0x6b123db55b6972d0d81a3741ac42d704e14707d98f976fbbcf347b6e4d273cae, 0x59c978e04431e87e06089bf64592992e8217006ee9bc5a7f4cdd9e9bede7087d, 0x3632327f99c712c2a1dc345fd77ad7c8bdbe1cfc6de3aefdfc4579ff841d2c91, 0x469c003415373e6cb7df81d0937384f6717e951d1637a0d10347e4cdc4a887c3, 0x29bea5c6b354f59988897aedef0ea53081c7a0a00fe174c94e7e12fd7841d1ad, 0x67e972fdcdf41ab5ed8393284aae6906a682f63995f65eb471f87f55c71736e7, 0x224fb6ad78d91f539e305b31be0dcf2f3ca958a21fa4b124da21f7ad7da939e8]).* from "../poseidon"
}
