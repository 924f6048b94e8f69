// generated by tools/gen_poseidon.py
module neptune_t5 {
  import poseidon(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513, T = 5, RP = 56, IDX = 1,
    C = [0x45c919736a0e5f2ef32c4c7d0a338eb1fed3d9e317b7580921072285c7e215ca, 0x3c8b831256b341d54b67d50f8fc3809ba701dafba05b89a271029f031d96cabc, 0x167a20b0469ec356267695fc87eaa379ab9d3e169b61fc293bb22da2a5c0c551, 0x1f348b984797e77b386e89b40070a25b747fbdacb45d3546f0809f5d872a5f50, 0x57abe8ace6aec57e0419933c4fdca23639b91a0f25a44a6db1a8231e0c24a5dc, 0x34b95757f2b12c0a11e9e563a6451470f3b5989334a603c69b7dbbea44c4821d, 0x3803b0901e40b7cea8f45a16d42d1675467d85802e6b4c274dcf904a200f27e3, 0x360a63373dd7dd6dee3777b2f89e4f608d7c46f541c70c915ac022d3e4bfdd0, 0x6d4d2cea65e682ac9f3edd9a75048019d57f99d5d7e2169b61dffdd4c39729b1, 0x6814af9aed7ba38a6708c8242be42da282b83725d530dd782888c09f4d40a010, 0x59b5abcd691c2bcccacaf800cbd5c9cc587fa6b2857c26c30e23d1f3f8cb2b1b, 0x3440b3841d68643f1e06de6bd62c1b29d43084013a87244130f974cb7f012109, 0x3f92667d28487d5f5e8ec3519b6f9b9e7007c98a8776c7da5a3edd68276dfe77, 0x45c7fd2d0276da39cc86395947acc63aa929086676b773dc9afabee48ecba676, 0x5bc7fe36abf2e094be22a29ee688574aa2b9ee01f2404deb5c88330660c8136b, 0x2574c968dfff1b567bc5c9e8412d7ba1e6ec2e1b6b65a1f5631508b2625f374, 0x6ac57004b5a44c400b446b72b9fc98cae953731aafc935ddd1e1c1679df6ca13, 0x3d7f84493535e8d8a68deab5a7da9f143221139e88a9f5dc8f99424584875d90, 0x24c1bdfce2ab3dd51e46b4476fe5947befeab9bce5bc29fb9c92dc6b4e66b1d0, 0x40e09e1b226501da9da3435086084557cc6795505b1e31f4083beb02373015a, 0x46be39a6c9b5cfd9114163ebc2836ee1ad0ce0dde5619c4d11f468d360f91b2c, 0x640aab5d1ac5d7ba3768208866de21e732ebf0839f9ab2e61197f74196d93989, 0xc42b20363bcd5c58f3a0651bcc03adf912af7b15b12b4577146b4fc18f76f17, 0x5e5c8d6accaedb2d87daf5cd41c3fd00d3b9a85069ee1f115d08a28ac7af04e2, 0x639a64e76576bf7c7ceb3d68bf62c419b96b4fccd88123567e0afc60b6726327, 0x2ec0f89c9114e41c049e478507d7e35773d7ba3eab97a19baf99a7475e8dc2bc, 0x4ef38f3bf1459f371c61f5dc477c76c8d1f7e55bddc741294e41e9d674d0cf45, 0x3e83e96e22e53a0eec790d320875929e4303d731b036706d161613fad43f29fa, 0x432bb0ae0aafd3a45c635c66109a1cdc25fe4c6b222a78976ede40726f9552ac, 0x6057b6e6e0a598fa258a1bf37b1e6a55efeae8647ab4115311ae2ab6dd5e9e05, 0x6c26f720581a48f7acb5ae1ac23ee22c8f73e28519434f0d13774762205a3b5d, 0x7f4670080e327f775715f04f6abbe7d9441c334285acbf0f2b098c0e91d20c2, 0x31da2da112023add2294392bb97b2d9bfad7489973636c3c164e2abbffd20f79, 0xadeb730bec12fbe0acb83ee6b5e936ef0edce6943fee2af4c24fdb43d078c35, 0x706ecf892fa5c7245a6091eb72981b253ad34d8adee0a0fec2a6073932a21a5c, 0x672103f390491958d747b33969eed7107aff2f410fd1972647baa417f48b814a, 0x1b0e0420bec52d2aa8338476fefd5c6802434039dfbeb72539aa906de5980742, 0x4c40de0eabcec0d710e8b20f5dfcb0d91993a14d4328d4ea768976325abf7163, 0x6311906596fd990df5ea402008601908581666c7b56f5378625123a418f5c17d, 0x54f24142c6e7831f5ff0a017774365d14836437ca3a1ff76464a3a69e1bbfbba, 0x31d39effd5b94f2fc84ceff059dc4389a17be9095efb465cbae60d2dec4b9c4d, 0xce518647ca2d90cfe02f24b4f9be9c34b38a93ba2349b28f660eb5cd2424381, 0x6d1c9ef8bacf18a72d5ed6cd19b1a075585eb962faded28b77027c092920299d, 0x5629c3152ae82276dc3f84a0981d51e61b01d49411a5bbbed9870619229f61fe, 0x3cf0a74f2978b7bae303f483c3172dca583708a17a5f79155b4add1bd02a6ef0, 0x33ab581d520b24d0de1a661bc18aadcbbb7d4d0dcdebe64fb0a7b08d57d63b7c, 0x2320c36e757e3e97edaaee0aeae152102504ca30ebedb0ef16dd0c08dcd31b11, 0x1a66e75c502bcb75acc6e1c43c735540dffdda66bca1ea5181aea3c77df48e44, 0x6e4de6f75a43336ef8949b6aab41f9d29b475a7ff0aeddef10a3058363243a3b, 0x48251ca086804847cc7f1d11fd5c610f7b10ecc64ddd4474d26a44b67024b15, 0x5868061a145c93f39607e73db7b4db17476918fbedce1f9a2067417576fab2a2, 0xbcf6bff7536437cb59f278d703f0d3c514e55bdfe77475c126ac2464355f1ba, 0x1f8d60e3789fe4eaf56be0ae272fba286a6badf9c761573fb5379d9c0d187091, 0x6af85aa25559f7b24f7e28a7981416a32d4baf0992b771a97615af6f746d6256, 0x4244a136434f0ce49145ca4ea3bb95fefc6a3b120ec083f4a2e7c0adb5d1f9c5, 0x4f3eab4c600985ceaba976278180197d7e67199bad07d5b39d4a5381fe4c6a06, 0x2cbe3b1e0181054fef504e8f769d03ebf06cdc6421ada452e5603a0a6b89d87c, 0x656787fea9efb02e3502d96b86852b2fdf45077c828d01558e3cb98fa6d57041, 0x4fd880f178567acb0b79f842741a92403e507ec74099020e2e869cf4a8c3c1ad, 0x16921e4d504dc8c8f4ae78192b6944ee431d78437fc3a65bbf8c1ab137aebca2, 0x1074e4eee1f3e77d53c6b7fa213aa403797cb89531d3ee8138c4eebe515fca16, 0x2279eab56e7260140d899f95d8768bacdd87ab0ead0b2b886b1aa282f5c87a88, 0x2b11fbd87c7ad224f55a23273c1e97fda768b7b71361ec7ad829a8f50c9f2728, 0x25eabf55b01dca0fcd969e8dfb1c9fe30a00b900a9bc91c0e248fbeb9e91ddc0, 0x2e42dceacc22bdca0d6e08b97a6568d1e70c8c4b8d96aed3237c246517f0af7b, 0x3e79fb2c2a5390d6917578bc6ae22f569fe3420a81f1365a43202fd7b9fbf710, 0x715317c142386fa93f7f22addf204a5648e477a1fb4fdd81ebdfde93f7a5f8f7, 0x5f8679fcf577ad45d003d321400cbc115a54eb3467580d4c4dbf95bcdfa0032c, 0x69b6df439d23e983a2ba7fd33c8cf294ca3d2f15f3f8e303acde961e8a67ce10, 0x33b9368f65e4f0746be0624c906837570343989f55572a863e77821589ccd8ae, 0x59f0e09b992699b568a02849b93a062c1e80feeb95de65a9573eeba3a85478d3, 0x2ccaf78df3e5a9b27b8b69d740b844dc8cd2a2cc8f0ff3fa0b5fa2a1bf3cf86f, 0x6b150fabcd5c86de295a46402a564f5dfa55e90854532ef31488e7c3694a8b84, 0x29ae80e385789ae2f90c4df679d219c2e5caad5600859052d0c05c32aef3f525, 0x72d63001f6ddac84119ac14565a2c624b86a36c2723c5718d8c84c4f697b9e02, 0x6f42fcf41b2e877df69f4f9f6880f698b72b190f0fb00b61c4d04fd2a02f780e, 0x130480403a5605a1a2d6e58d8df544cea994adc0bc5cd10eae02b7d08cf59add, 0x7d5ad8ab4da97d1f084bd09f2600375f3666b0072889368816fdfb571e6d6c2, 0x4846125e2322ac8343aa3de1635166b0a96ed5972dac032767c7b2dc5f43459b, 0x5cc4a7be133c33750a3d5b0b20cd6740eda6600ddcc82981236699ae819b20f9, 0x3c7ba4ec9b62beffc065e9119e39cdd7b1ff281c7117dab19a0330ac51ec9c4, 0x25bde4e1a3ab1ef2d95392413bd0d86465c4001c365c54fd5e8291be3dfe7bf4, 0x3c2ec1e7e99546c793dd868b5077779f55ea7686494f16a8991236ba35e897fb, 0xf22a43920e6bbaf268dcf96385cd3cf0fa67cba0dd2c249d1f211eb8792ed78, 0x6067dd0b3bdb3a6d8ed873db7486f20a7ddf0648108e496d304fa28f37bab463, 0x471533f6c88e605774a9ebdb3cb00390eb1008ed9dc74531567b3d294eaea351, 0x1aeea71a8cc88a293738211fce8b918cbc67a65690ee92e3709c88512065096e, 0x6866aefcf5c1f1165eac03c2851d62706927b248f75782567ac2d494f11d24ad, 0x3b102711e99d4b885348461107cd06b97fc779560ec3e96b3120733feb0d97, 0x814bcd5bf9dffb81956b1382c101e09047f28b5d395144c70bc67d44a37f20a, 0x73c121485cc49bb17d2dd1ab868b5570413945651c0e6e912fd869cdd3575af2, 0x477d3ed57aadd4f34d82a9efed371d686157e99520c1016dc404f7b03037dfe, 0x1913c70e18cfbbf76a3e21f1ba63fb8049f2f2bda6dc8fb62718fb482e5a50f9, 0x6eca77de2a6a380ac9120a7c0de84cbd7feff52258c3eb0da10af3d80231ba31, 0x3990a9248e9c8c70bec60fe90e3755432541137bf2847eb7fcffe3e521af5bc4, 0x5adb24f7a4a3cadb7d13ae75a3b413269aa39e8c5e30f463c29dc7c74f82dcd9, 0x2a8012fb21e1f4002e0fb8dbfcfa4cf5faade5cfe86edf23c9f2a03d838427e2, 0x10b0de911dcc447ee62574025f8a223f046f79ce71dd1484b56fb83d17fb067a, 0x416d127f7a9986d41282ef993364a0b3164bcb0975686dae83e4881b1db2b406, 0x6898205506b98be626d3cf9c8af0e308a65fb45045ab97240e562807aa4db280, 0x1cfa4e4dc48f0deeaaa47e87d2b5f238d810af91992d7293277b0932f46d1fff, 0x474c4a88674097558d96abac63ed1b2430180d5dfb67fe2664bd7de68d97690f, 0x52bc8b307ead2d4f4544ebd04720f864a71e11cb25f17451a069445b3beaf167, 0x1f289cab4effa03c4cb43cb30fcf37a40abcc64e8a7b33ba707434d6db756747, 0x228662cf8530a981928a084df25ee23064f5297f3548e5182fc40bd1cef95368, 0x390e8c280a180d8d7d7d5fa93c617af57391a337bf72df985994d1534e9b49c5, 0x3b61ca0e5828803ac66827da78d77e1d4b4361b957c33eccf8a2cc09de55300f, 0x6172fcb6b14615a349dd781f23e85f140e2218ee0745972c4988a49c68a21957, 0x65f0e000d3701588f6c35a2819cbd65accae2c0e32aef12ddb2f53745cc8b2a9, 0x47590142cbd3d5aa74c66a9357b5e448eb14fb861566114eaa9ac7414cdd4635, 0x28adc7a58adee9f0c79c7f338f23ebf613566c269e250912015742a731e4b2ab, 0x48e0615f283b20b5bb8eeb0f8efeeb9c07aee8334f0a311deb1289ff4e6a84d6, 0x6d6d5fbfaa411348e06954195e4fe1d52e5f7f775d1d9517e17882b55893ef4d, 0x4d0de5ecd80a61674a0de04d101a5453ea10530b770471a0938209c3921638a6, 0x179d3b06d0beea59e02326f6a6c7dae04ac2cfb2a5e0ff959dda89675cc960f9, 0x71915229289cc9297694fb92b0f781b13bdbbe288cfb619f31de44afcbf8a8a0, 0x97559fc2c80431b60446db727700609dbe56edf229d04d4e3f756bcbc947659, 0x304e25047684f74ded88192cad4fbdb97a9fea9b66369d71e62883d4721278d9, 0x6e1c04bf5cb9c46a53c9e1eacee090db5bd0136bc537ccb308ac8f6e10c8d86c, 0x56970d4fb3cfd1114b9b1bde1581927450c176ee41e46af4bd256ca2a46aad77, 0x17cf2c1be101252a9132422c7b94149ebcc8a16b797b76bcee2b6b1c4c1e0ed, 0x57454a6c5025f41a8385ad48b3482832f0e69fdf48e8dac7ce70c3cf480cc99d, 0x85ed0bbfe597d84f05073f5d28fee6952539e5ff939f8380b662f2668660e4c, 0x6e6809cd4bb9ace7142683fe828b9e7b72599dd5f4723819f641048f9713c500, 0x330add5151c0b01d8549288e25b0d20d4a4ba7a6f72b0613183323bcf4399392, 0x1c29de8bb756436c98aeb02833df2b3b116b9971f63b6bc75d24c5318a3a03cb, 0x2e075108f8c0836032559c91cf6a29d4dbf2448e239d41c63f188a679f3fba38, 0x27bb25e338d7cbc5a2d5ab1e96b6387d844c2fafe589559382a91d46312d992f, 0x419cc68a736f426ac6e3d001569e0689bd325ab3d311dff8efffacc069468ea3, 0x5977293010476da73948e0a22b0114a8b1438935b17ca547dc7056dd4d57e57b, 0x15447de606f871d41439f382ecb45f93ffd36cf630dea94c88a956c8847e101d, 0x7355bdd6d996e6f54a08f73924aec9561802bbb693e0044ff74faa72330ca36, 0x5afe0f2eb21aaead16dd885ba3cd1f689740cba3f23e32196c3c7ecc614621cf, 0xef021bff3549466343eb87cc3785985494d7cb65c90ae8f0c6f61a4647dd90, 0x2ff9122ead3dc5c0e29cc28c4921d015aa4feeec27c1b2088ebcd87f0a154f33, 0x50be48a7422ffef8a6aec55ff246f78cd00fa4bd59528bf168cd8c78217ca2fd, 0x4b6da659f7d270f61ee62d027e4f7f57c6a95e1f0fe47de79acbe3967ff012b2, 0x68a8a87465a7e0dc76407b343e6b9949d853e5ba06e7e38976d0210141bdf84e, 0x179ab72146d6f92a0dc4345eab8925247b53d9f17f2385d51dcccc4ffc90b46b, 0x32aefcb6d275a9a6180ff1a794c6079221e529895cbe8558870ba94b3f1c8444, 0x4bdd947566ff61d3ea770b0a0d539e6d4f7574dede1508e961a825246712effc, 0x365af8f9dabf72281fa90dfe1b16bce2460928b64ed4f81649c7cdac153c9e72, 0xf297814f4b602705ad5f3218458f946c1c9ceeb4f4fdd7b742f2a983cbd0b2e, 0x5e8416a468af376a744f68781c6821e442c0e2ed9ef53c462682b019a3ba178, 0x5393d230efebc1aff12152b4c44cdbfacc45ed42e13c22a18bed910afb1da9a0, 0x28b8354cf2e749e25bdabf9d018f620a5439356f094df364d2b1589f671549d3, 0x6cda6905e5d46961f970c890d8e7ac2a56d41bdfcec21d7db84934cb5aca646b, 0x69bef55d9a715e73fbd6f4606e1ab527b6bbefd9756f7903745724e784f77f44, 0x614ea687da62a0d5f3ef4c161b951dc6756ffdebb3f9d091db8187bf3b4776f8, 0xa5987fff4d992372f28139ebd65f92ede79858d19bea4ab6284ded464fda422, 0x4e30aa223489e9ae8d0c98978a554c8ab668a2ee38e57301d22451b267455f23, 0x21c2de5a011b32183262697f941bcafe2802e6e774386eb4800cedfefb7c3f3c, 0x4eecd02dd648ce17de42b8bc8f86c5c4b2844d932b001dc6253fc02b08b90c24, 0x41cabe807f91c02cb1ec85c73ce9cc428c9583f4854c65b4f9c7648daea33014, 0x372209b015420ceb1abf6f3263f561a54d209f6d6c3e4ee2b113dc1845a14490, 0x6a8be83cc3b3b48d84e1c34830281b11e2920a4e8bdc14f6773dfd888ebd0ce8, 0x5f736cf3bb919b6f277bb265c84de178db8345bd3085e32c882ec3842f54dbba, 0x3cd0aae6c216fabc47db923d6a865dba34801ea4a7cfb3e6bd987bcc4faf3c0, 0x68314c50cb92d17cf7af272034708ea6b0c3757144e1b229e0550b493574eb8d, 0x6267b1df68df27d97909674f48654574cfd015af66b8457138604b282acc9e57, 0x4c8bcd2992012fafcaaf034ad13353c9f3a6cc762b30b1d3ade89d9eb966d52, 0x5656bbed145f7f7abece240657cc595aac6efd91f627ceb226ed7b6438e7b35e, 0x6954637879eb2ebfcfcc1b802e769a680a3819a360ad50c472be2d0e51acf1dc, 0x149dc33baf50542789ef4ed178b77626d6844541c3a896a384731387dac5b90c, 0x482f528c643de05c89e1e8a21c3d6db2543abb42ef3cf20c4d82ab77b31de9b8, 0x779ff218e9593f938dfc52682b749ef7b4053af86ab74519bbbc2ed56683a26, 0x87675214e7cdb434954b9228a1696cae06185b83bb644dc6fe2d51987ece948, 0x56a9cfde1f49c22c2ad907ba60efa23e31562814e89abb26b41eb481d81b486a, 0x36fd0488739a6ea6b03ab72a0ace09f47f46853843dd315959b5fce38728bb92, 0x5bfec7d9e705639898878681b529c09400f370ad00311aab8eb542492a7fa27c, 0x531b8b07a70b6d11e9e541af2ae7cc90f0521a887c859dd9a64e8a9ff78177b6, 0x6aa84898dbc8cd76d230d2d6fe97788afcd403167af49e6ba41b2223070f61b8, 0x39962e824171a918f7f40f9a62f2a8709a0daa49161b9cc020defa8bb32cf2cb, 0x31cc7855ac116f7479bce7287226c9db76243c9b65546a9ec79e758e3fabe561, 0x6269663d075058a412e95f81f72a6213e63d8eaaf5f4c0a4ac4631a915cea8c7, 0x4832904e976d2de03be523fefadb716dd7601282ac4a54a2da7aa30bdb1a12f9, 0x64fe6a084aaadd464a1fa1c5dd2af0509851022c2632e773986ad1a4d8f379df, 0x1e1eeeafb6dc11152c902a559abea8c28e3322d7f1bf93540ba358f908b4683b, 0x1141f60866ce253ec48bb55068822729991eab53135546d5c207b0d24064efd2, 0x575e5f6a07d76f383ba25fc449274979b13359b8e4da1df36d70a8a2f2b42333, 0x2039fd001c8cddd7eb56d4285425bad71a35f7b97b4ea9cb7665d8215764d388, 0x282cffd75076083b095e5ff3b90e63c5c138a958dc3e0d3f3a238fd24aa382d7, 0x51d51f49f26fd9f6c001dfcb48cf83b589c385387cfa5866b80f298dfd429aa4, 0x71bc1aa3cf794a9503d1adcab48dc560b70ae34b80804c3abe09ff1d3ba3792a, 0x29cfc1706e5e10cffddf9b490129f1b5645f5fc2c40f09a0b37a98c13d32602f, 0x13cc50f4d2c4e0eeadde4085965ca971db5d8413640eda6acd8fd8abaceaf5b5, 0x70f951fd66c628f96a9545235583f59f27d279fd3fe66d0238f5db6257b970e0, 0x6985021e1fb911adda80b9a072f8537401e52a4ad6b7b22123bf1ea9f800e547, 0x14c8a4c62c5868676b9384eb1a62e82340424d32c8ba5e5b910b22157f3b6f0, 0x3ce57222297a45d8be405706bb8706b58498e6fc99e53cc195e14d4497bf5107, 0x561f932ac2a6e2acea2e8c585f7d27b19a1e2139c8135fce01e8fe22f5d397a0, 0x2333767a4caad6979b67cc03cd76bda5839bed29f333d9784a88f97d7f6ce388, 0x6f1f1f0136e54a17c01a6f11f7ba09193c059e40abaf3d96c7910a6a02f4a312, 0x2890c7f78f20919e1341a66775a636bbf8d7edfea3f793750b2633e59d906643, 0x6ad641b4182e508f40f751fc414d41f3d266ed51078da3b4c177d4e1edc083fb, 0xf2a7754f45197f740dbdf169366d11fff52f4fa69029434bc95fac0faa73b07, 0x4ad253e5da75b6240a5c5f808f07eaf8a3eac290af13ebeb9f51bbdfaf06c882, 0x656c1f19c750094c1a5a74372d8f7f07c236eca5e45d4a1d2a670dfc4f08745f, 0x3170776c7f0922b03dcb60e2ffca5dfa67a9c5fd75aa788488a00ecfb76e4b81, 0xe1216473a260fc3667e83d176e96acc975ceeb454de72b2b6eb0e90e2d87612, 0x6c5b01cd0b7de99ef5ace3e45122cdceb39e2acbd3a6f1e238e3998d1dbb548c, 0x4291d9b1b52979b6bff62b794f0316927e5f16953ed10183386ace6296e70ac4, 0x52b8fbae09cc3df21d56bbdeef0a7f7956b1684ef70e55ef855fa318fcb18de3, 0x6fdc6af6df17707d2ccd9b2f26623634d9aae777f295dc2344424618609e090c, 0x1e8076803a34428d9cbad34e61ba121518622ae8211436af1317ccb4c423b4d2, 0x133f70b9d2482f6f36ca08fca7f346b1f40485ae90c261696ee1ede031557c3a, 0x228fc759179792166e67be5657c92e103ad75e8eb7bff9fc68b50aa387e947d2, 0x27ceb0109f8b17e459968923b5e21f324f628ff5935ef0e247893553e5467646, 0x6a01464911561e4aab84ebc9c5e4c8b157e5d4840203300129b3f4f95228d029, 0x6c023eb4eee6b2a4de186c82cf1ef39c6e1c57035d5588d32ee3ba3e436f8b73, 0x3bc9d77a265307921a0ea6e56b516dd6a5b74855f4152941bbb35fb98e4f5408, 0x44c4384e7109501a463e63fe5fadde2ef14d318a13245f3fda6d7ea23eb4ff4, 0x10568b1f8ff1be42664caaacf3550b87d1bdd43f7eb3191a47a44efbc937f7df, 0x1e87776f0ca594d72e7512c3eade072807ef31aa80a6240dba11881f57a806e1, 0x2de4ffb989455d63ff38fab35f61d20b133467331f9c1acdc7de3c3f209e2b1e, 0x4fa1dad756f09e14c4015caa6c354084c134055127fc32bce293289a268960bf, 0x1b4e270a2b23c0784fdb5fc77943a0dc56ef653f06028b7fd6e39d31f97e0a36, 0x2d4228c55a1a37911b8dff039c5fa7943bf3e92b2e36d9bc3481b1b86b2314d8, 0x14f76fc0fa0a95d9e00bc4992cf1193819acb0a40665eff30511a0a318bd3c72, 0x5858d02b57563fcc114820f2ccb7a4a2945681bd7667e9916b75d6ef47c342b1, 0x72d075db0f4d1d22d3fe4f4a1a55396257d18066fa39bd68e51f434fc4c727e8, 0x5baaec04b8d2e64c72b47ae308a4b95102dfe5e45ccd7c293a3dc06c23289f25, 0x3651b502f2ad090925a015d5ff59a76d616030bd0a41d6b436086af54506ecc9, 0x69ff1bdb405d69979ced3d670a40b939590a5a51f38c0410388eb009c3a860ae, 0x5bab2510dfabde58aa7eecc41d467af198055055efc7b8deeae867a1727dee43, 0x5ae9fd8b238e86e55619a1c099f291babf3d437a030f935c52462e56af5ab58c, 0x17dcc3e1e3681b36c0f2adb4c6c4e45b47594116990891f334fa3e0bdd20f3e7, 0x320f7b086f6ad4a97d7eb3c1f9b94e3673933d0de1fd5def88c191e0f3e92f87, 0x131f98b5f97f793147a00da08ea006fd4d56622e3980f4ae40978f73c6e519f3, 0x46bba98a418ddcaed061f6bf8c56672ff2de5ce790ec5fbac71d8eb007658a9e, 0x56ff1b7fe6f00d8fed0a6a304a3bf68471e65c71b3cf3dbd8690a0d2439180c6, 0x3f428a120c488bb1c28b4a30f8d776a10bbfd4d31c5f808c0ff885139a3fb96c, 0x3dded234f0b0446680662b2cdb1052908bd5a1d4d9f8686619161908750f32fd, 0x10c42f8187de6cf6facba2bdea948e4f5dd374fd0f1a3b209a173d818ea029b4, 0x1d1e996757135f39befc21d478f7c207a1f88fc94ae14202b98ac0bb328ea4d8, 0x57f264d221e8c1ce100bff4396fed21c16d1eb17925254aa23753ef800c7d643, 0x6d092fe3e6bdf61c75e13445d975d73477d325028fc8ed3f663cc54e67b29cb6, 0x2d76d2466ce5effc9fbccede4b0129b2af6a265e83bd5a141d3bbce6f147620b, 0x6343b255613336b0bffafa320cd685e81f0ae93106c0824e514c436c5ec3cb55, 0x25b3b14cafc4ea85331a5227388dafae33d7afe579cee19c08d65ab153428197, 0x4a2f4857105a06e11853aae81cee62bda167258953fbc56e1f49ea240f2a1ac4, 0x276ad2dcd150dca3731e9fb82a325ea051f1aacf080866bca5c9bf012adba0a2, 0x17873e41a73bf1c3fc130232ccbd50a01c7ae92ac0493a8c59019ef524798700, 0x16ebe0358dabcfca996315c8c5fa2c7553445a874e8c89a58622e7fa58e67d9a, 0x6d13c40d90eadab4ced706084c7e50826e4fae5b98f14119ee7977ea965cb6fb, 0x3197609800c8fc87b2b66c8b0694d5f99ca2ad55aead53d5e098a3950e535708, 0x5df8078fd66368f64af788885b0cfe7e704189da358789dd57e67210038e3dfb, 0x5daca40e32c133a5561a11b7bff19f03df7f47201311819c059d5b0ea1d6fc05, 0x4c1927b94310d61375144171ac4f2532b7bcb6329d8dca13507faf26dd4ce3b2, 0x2cb74ea997a55790d18316d3ae24d0937949a9aaab5314896cfb54ef8d3a4e0e, 0x7d08ee18a917db6ccff92859d71f6e85b28940c1f0d74f5b429fc90d91dc2bc, 0x4a7f54e6e30cd16a614686ee4853434124f15db88305cf14a0358b03341a8299, 0x613555cc23efa6825a20b705e14cd967aeeadb3689075e582e8189aa2b231a9f, 0x304460b05bb0695faa7e092b7d269060ba91a87f53a22fe6d31696554fe8a781, 0x72dd465e095469bb7abce2352b725c94b5b61c383cf4ff612f553c79a49a0b2e, 0x43cb1cab60904386301c13deed060df19196d343e4a5e2ba7452753f6bcfdf37, 0xe8ea5fc87f03c5fcb8852585454edb0f6168328371f98d6f0f236d23c159bb4, 0xba304eb235fda516c46d473bee2fc87d9014c0b6c0e9b6d87667f10c06e0804, 0x54a02c165dcd9c765c663a8e2a722d803389df585adccb55bdcfa57afab85d86, 0x1a859cc93d98670ec38e371d3f65f4e55a4f1ec372b42e76d44458fbba500993, 0xae9bb965dfd1ccad637b20a32d6f68f25c4a3d3d8aae72befa78888d0e083af, 0x199a470960b2c15a4ad4caa479536d3f50a85f9e257f81bbbb4d2cfb97f0cbc, 0x56a467b38608951d7ca87b6d394de2e9efca22a69a6d8d92a95958e7c976a100, 0x1479e08483fb3d1ca2a94452706d2ef2abe6cff4f60e7a5e081acb7d086ade99, 0x1a127b3c280cfdfaf3080173de1678dd3dc41139a99899ecbb8d2ded893caca9, 0x2a335ae40ded03e4ee261f0cdd29a16a6fda6322e44614fa33e5a897cc9d958c, 0x2fcb4b9e9d9b4f25939103b38c545c679fc9e5239b71929070bf941c3cdefd8f, 0x3439bce9851a1c03ca727a80face602014361d1641c8fc664492747005fba91a, 0xb14eb103c304c47f5e577e7422a93029dfb2f8ea84a5f9f95cf111ad27157dd, 0x2944a043681938b42cfda911a9510e91728b9cebd911abb5e3807b2013d967a7, 0x1a69c10e53f031286d75c82735c8d5dca27988a55fb932b5c1d4017c8951dbd2, 0x12a0615d05d92d24917bd4b2fc9c9c28b9cdb8e01b56e1bb18aa5095d8705a36, 0x260f3f1cf59d9f0f56a92166f252baa7c007306ed94fd18892d692f27544280f, 0x2dec8475877276f252c57d53c306612c2063dd257ba8ec80d581a2b62ced6b6b, 0x65f1da02615cfa9a5d929fb3db2c3ec1f2ad150c11158eb5674c51229d5c6b11, 0x375e5cfe68b2cc71783a60c9141347fa46dd57e72860b4d5e402a2c3c14b0401, 0x377a0cdbd62e04c5dd818eae49894dcc92751c2b52e55a0dc7a6ceac28ea7e9b, 0x605186fe9bc430ee32dad1127027728aadbe9c4c938f35fda007a856b4457fc9, 0x5329fb784fdde802167110d68a9b6266c254966a3afc44ab0cefffdb59518f95, 0x46aa9f9d0387e2b113fc7d1d445d653c06147c9d1c1461d247d575537c7f290a, 0xab9bb17f7c23789eb94e0304e5310104c6911574031bc80a6de385081153058, 0x4e851c951e53ceb12101f2f836744ae4a8be860e965ba7d201df0f2a3a5f31fb, 0x29c111ba8ed62b0b34600afd87a9d6f3fd6e90f03978cffd501991a10e3a7441, 0x17414640f8f2d61120fc51bfb589bd38cf758869211b465162c6da13f2c4840d, 0x6bd124ae9946a543d87ed6b75b72d0fd010aaa8bbf657b6f0288ecb8eae177a3, 0x5b367a9093ae560aef5a6c0f74132b8960e5adbf16535cba20f7242eea45cbcb, 0x49d6c0b706fd113850518480fd936aa8c17d57f827faa9c497d3f4765b257799, 0x43152ebd142b1435ae2fc0113f9da645065e82a2fdeff98fdfc7c6632d0fdb92, 0x23c85780462deda125f5eeb0ab76910908cb14efaed491662c3dbf543208ac87, 0x4017a002bcdf8a526ac673fe30c7cc467ad7ad2774e46ddf11fdfc55c00bd138, 0x110572c4e7cec2c5bf045dcf23ea46381306425349facf834ee1d3ad890dfee3, 0xbde607a7cb7aff25c8cad3c85f705e4a72368f409da71e7cb841b94e6d2a049, 0x1fd07c9cebeaedfeb697466e1a91c96d8c04ed3da1d2e5a0db82f6121ee6b581, 0x532f955f21c84ea0fc828279d2bc2d95c49962c552da28af9a5853993c8df92e, 0x4b3115223ffc9618c4c2f59036eee3f39a3f2c17c967aae7cb940df339c67cb, 0xb90831ce07a92c0d39a74e3fc97b6e8329d306b5289b3adc501fd51319b1f7a, 0x5bd1729b3a8bfe23637a595c847b7a9ff7827aa1441ce672fd403025662a10c, 0x55ebda5c445462bc4b586ee161df1a2e467d4a2cf76ee2d44c5d4580f47495c7, 0x4d1689db0bd2ee319576bd867e51a6de5e8272952915d10b7aa91eae49b11371, 0x4e98d15d5d96e2dcb877be1b3f55c510c4c9e5d250b65e8725786f49830b0124, 0x6b36a84e5c5b7c5cf9011ee534bfbc8d87b6178135d9f55223bd03b713f9377d, 0x682680971c6c86d01178185a6831f6424e2f06abf0b53b2c70ea80793ca6cf91, 0x298c75eb0c8767396286434ff4a3062f362961c60fa5159ec5ad0b9edef33414, 0x314946a60f3406f696aa3bcb6ed625661d769b9f778d73ab2ff81017a920e139, 0x50e2cc23977d98805a6dadd2415c9d2b23f1180c1e83d5a860372d9268a1945f, 0x612d303df8228e07631429cd68b50b70cec4e896d5f2e6ba986c65a6a80eb85c, 0x1d1341063cad1c88c612d7c01f6186a0431a6cde9aa99d4a26618043eaab589c, 0x6648a716e946257d3bc0b56ffd7fc58793ac6e4c41844858ed88faa4ff23715d, 0x35bc4fdde0dbab613e8f1d4b09b42980729386d780d50e2886291ba938ea1e8, 0x3cca70505b9624b79fa22bbf5e36440aa33f619c238d748b5b3f7d1aa0e557d9, 0x60eaec0d0f7840a5fe7db569250732c7cb9780613e648026eaa977bc2f803553, 0x640834ed23408c62d81a8286388e08361d004bf45d5813bbd25ec0417c2565e2, 0x3039e89bfffa6a25bfb2d10ba9b908642bd61e6033b4bd07b122f43b46248522, 0x3115beeed162eb39094dbbbb881534b654dd1a4657d807dc119b2371ba44b35b, 0xe3953986c35713a32b6d7e40fe9d4bda80fb7a5794ec3aafcb2bf0e94960585, 0x24a86ee00566a8383ea7975b889eea0e0f13716747f85fd8fb3f91944b2d08ee, 0xf92e8e9fd5534111694581063a40fa49b030598118a9b30d8345e577d89c80e, 0x6d4c0a9ba1d4f18c60879c457d8aef05837ff2876689c0d6c8e63013f4a5ceca, 0x3eab2335c4e9540a6c4139bded832d87c7027dc78096eac35d40b19737dd2062, 0x34e974d8cb3be2818f7a6a121a5c6057ed5037226d29e56d20a5ff71a4bec6eb],
    M = [0x458e97984c2b4b2b51ef819e6c2de803323e959b66656a65cccccccc33333334, 0x609b60c54d5893118005895c0806deaf1b1e08ad2aa94ca9d555555480000001, 0x211f5460e751918257c7624b7077624aaa362edc49241a48db6db6db24924925, 0x656ff268c469cd9f2cd29d07086d9d04a945ef829ffe907f1fffffff20000001, 0x19c308bd25b13848eef068e557794c72f62a247271c6bf1c38e38e38aaaaaaab, 0x609b60c54d5893118005895c0806deaf1b1e08ad2aa94ca9d555555480000001, 0x211f5460e751918257c7624b7077624aaa362edc49241a48db6db6db24924925, 0x656ff268c469cd9f2cd29d07086d9d04a945ef829ffe907f1fffffff20000001, 0x19c308bd25b13848eef068e557794c72f62a247271c6bf1c38e38e38aaaaaaab, 0x22c74bcc2615a595a8f7c0cf3616f401991f4acdb332b532e66666661999999a, 0x211f5460e751918257c7624b7077624aaa362edc49241a48db6db6db24924925, 0x656ff268c469cd9f2cd29d07086d9d04a945ef829ffe907f1fffffff20000001, 0x19c308bd25b13848eef068e557794c72f62a247271c6bf1c38e38e38aaaaaaab, 0x22c74bcc2615a595a8f7c0cf3616f401991f4acdb332b532e66666661999999a, 0x6963af62e003892a5d1d50074e93217934daf23145cff68aba2e8ba200000001, 0x656ff268c469cd9f2cd29d07086d9d04a945ef829ffe907f1fffffff20000001, 0x19c308bd25b13848eef068e557794c72f62a247271c6bf1c38e38e38aaaaaaab, 0x22c74bcc2615a595a8f7c0cf3616f401991f4acdb332b532e66666661999999a, 0x6963af62e003892a5d1d50074e93217934daf23145cff68aba2e8ba200000001, 0x6a44840c3b7b082cd99fb0b208d45b5a376dd6581553d4546aaaaaa9c0000001, 0x19c308bd25b13848eef068e557794c72f62a247271c6bf1c38e38e38aaaaaaab, 0x22c74bcc2615a595a8f7c0cf3616f401991f4acdb332b532e66666661999999a, 0x6963af62e003892a5d1d50074e93217934daf23145cff68aba2e8ba200000001, 0x6a44840c3b7b082cd99fb0b208d45b5a376dd6581553d4546aaaaaa9c0000001, 0x6217dc5a0f85429f8dce7bb808267bb5bd02ed3d9d88753a3b13b13a3b13b13c]).* from "../poseidon"
}
