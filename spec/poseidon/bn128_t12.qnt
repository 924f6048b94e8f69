// generated by tools/gen_poseidon.py
module bn128_t12 {
  import poseidon(Q = 21888242871839275222246405745257275088548364400416034343698204186575808495617, T = 12, RP = 60, IDX = 0,
    C = [0x1512df0135b6692589f071140a60749cf775c642b300da2fb4ad5c6e23ad4e5f, 0x2b109ae037ed30361cf6544b2f4ce58f356589896d6a8849482ed3f9b66e1198, 0x2585bece06eff553d485478a19eb149e2111ae4e1ecb1d61fc10cfe1c077f34, 0x1ff896f4c0662f4b2ad926741b481d03b813a8cc343b9c2d2bc4819c70b2f3c, 0x1b0caf02f434fa3d4cd4fbb13d3116ac8b7386a5afd6c67076ecbc3704aa45dc, 0xfcb7c9f13c85517a7805894ac82b57c06f2f153a6f51f60f8e508684dfe5bcd, 0x2dc2bdf7f43812e39cef210e42e92b4968ad8bf554541182354504d32cbf9954, 0x5add9df20c1898da46bbf74594438beb07c9a65635c90f45c0a08febad13664, 0x21cada6641664daa997fd55ace8b88191cdc4194fbdbb6ca5895447c8a58859f, 0x19623504589a60f058b04489b153324d16ed66667a04df572b103590b848bf04, 0x1776442d850a436a005e02c6475b72fd2d5f84452890c444162848ee1d57dec2, 0x6c1691fd6d2ee98396610f3c868d70874f24eff853938d87face89234a09a98, 0x22c3aba15f3a170a1bd11761cc21794a7afb348a45d85e30bc5227881493f45b, 0x1f77b18f06e1458877c2b18cae4e92c196c0be0f779b9e63b06c48e90b0274fa, 0x226c3dfe7a6a67319c1dadda1b4ef04e45f6b80a78ddb0bd67e363e63b85c546, 0x56efbe3aade68e6886ab92e98a3d28a68ca89d2fb75706f6946a0081f01f621, 0x296406451f201c0d09587b7f4e00a7d0e1940260d48313de807fc2df0f755d7f, 0x2000e0b6012b20f09df8eed25b095bf22e75e2a9c87e478287700b593356f84b, 0x227f3766b6642d44c6d836a17c30cecff654b544ae8636818db8e27db124ad31, 0x2404641b2f5dad9722542bf151d497e9199807249b886c975f26385dfb254a74, 0x37493ac64d1deb34b9b83490f35170c4212d2c30926d4e4efee57baa652ba7f, 0x18ea07488f02c6925f4b01d01b809c9a6325ecc7d9c790922b68ce5e7941595d, 0x11952bfcba06442b3c1ebd959f1d4c51f982f21f994e105c2578fc4afff91c91, 0x12be2a32f27a4e203517ab2028e65b949f896c5becfe57e24c0af04fac720544, 0x23e8097f69bbe45f02faec5e26dc523a02153b9ef9e8bb9c5f179dfe3036c358, 0x763fc4b7da94badbd97ba933613c3534ef21536ae7085e123c8d3e23235136e, 0x27a4fbd1c43e0ac15eac974e0ce2e25344c46c3232ee713141938cb019b3f907, 0x2dee4ada593d756654dec12b86bfb041ad785a56707611fc4845f4d849e7f86d, 0xb5151d0ddf61b2291772eb93a4e3e211f52124338cc70f3d1ed95b0e9da3355, 0x2116e26c7086e70c806605a1671397d7c073bd016d370ab3cce7c695a7eef96b, 0x941849147ab2cd8d189c4f8b17b5a9731e55f2d143f0a76d00023a38e4efe5e, 0x2ba07a6f84d2d2dc2f1b17e2352deabdb5d1e3b92e424cd6597c77d9fe672e91, 0x1aafef7a2d2f0516b4ef8cee33b4e8fa3a1776fd2955a878ef5d227d215a8071, 0x19434cc86e2f53e5db3cebfd2db52b402fa26e29c13bc13f315786d10ea01dad, 0x75519c0bd7a6e6fe4bfbdf61addde94db8427580193e2ac8517349805b6623b, 0x12165d475cf1c4baf662bc6cd8744f9aa4914a1d9e53477b211e853eefbde02f, 0xbaf434f56cb6bbd08a0a58713b949b54c441ede53eeb0c4f9a6a4047bdae7c2, 0x2e295b06bbef75a6d76dd10edba1eb93b287261bc8456ed91c2bbd0998444ead, 0x146567927180cac0a771d5830f1431d14cd2445f5da16cf934442e7365847e4f, 0x231d26e7d3ed945791a52013f46d02f5f4e46c17c3047acafeabe4ad02cbc44c, 0x1a2f5ce4406246fbd42a57e6d5ae3b2219261e364cfc1f2a392948fafae1e76, 0x661cc8a39d60be9b3c8bcd81d91fa8ebf9aebf9829c253385cf9f0e3e76b39, 0x1f565da70f04f96f26b3b36265f977dda09b43bcc8988930dbb2079fb291fcb3, 0x12fd46d935d45a5c8489ae0cb02c2fc0214b40d2d0f3ce442a28d764a9fb0821, 0x2924153dcf47a15be1fa67f8ddf00ec5c816868c8e91b029f4afbd45fc52ed0f, 0x1d4e61f8c6455809e19b563d168b4bbb87a92674346f9fd628ea5d20eba0ff4c, 0x2c4e7acecaca8e2ea9fd849be562d4d5d955864d152ff339f2b2c7cccb4ec3eb, 0x80300849f022b572d62fa787583b6c9b1ea7520f3cc4250abfa8b4b600ac986, 0x193a37fbfd3671dbfe759399d018df64cde45f75b17733294e87596a304878ce, 0x25e2563688957cf61178a5f0073ab7dd28c6bcd12ebbb9a3f0656ea0ebb87c98, 0x1e0d91980c59a652465ce702e4e8de73f9eb4217eae2514566a39db44a09d516, 0x1391b258dafec594799dfa817544e8a907fa794af4a411f89bf5752f36561fb9, 0x12c30d5f593d4b0b80fc8c967c2a50c44828a4175195e47a97cbead60d026925, 0x209ac8a2abb70eb33f20d5ee2b44ef71f2fb317a4cbf004c89e55a9e37aa9ade, 0xbc7ad09a98b59dd1677ab30302fdf0c90e54506b5084c5c89691a364d268ea9, 0x1a7462cd2353a35701592a1c54fd363747d3022cd8548ab8c838c8c163401a64, 0xe251dc6fdd76bdbebebf70808d052504204fab54c4ef63159d064d68ec5f36d, 0x2aaa85771e835599b13e6c43c0228167fcccb380aaf7c8e89b4610e586f8f9fc, 0x2c429c35219ac033ca9ff5436fffc49c3ba01a4eb270259f6e9a3f1c3fb61414, 0x11a5a9e38934a5912bbee49d509564c994be9d2e3eb615468b22a72fc324daa, 0x22a724029f009c75b8a4358aa7636d13eaebd37cc79587497be8ffd58b4b6c0e, 0x229236c15bb19327d244457a311d69f07027cd95fc152a84b6e003b841c337bf, 0x304e4b8a0950a39ab2943c3b68eb6f16850a8cee4582fe4a8828296356811696, 0x834178a75d083a131ead09424b3e3e969de53bb2d20f94010883f837c99f9e4, 0x105cc405ecb40ae3f79cf5b9bd76a7f97a03f9a076f8a1a22c10f4492063049f, 0x2a37b4b65f08c8addb53e8f024c07e47b2885a065a352a46a361549e1f8fa288, 0x1078c0ee085dd1bd24fe71fae426d7d6b9697d94e17a7258757927a864cfc9ba, 0x1be49bbab70ef67a5d4e1706624a22860cda286dec7c3a2c99c0b5f235ed7e2d, 0x68ca82d18b3e7dbbc769a29559b1d87edd0822384d2d4ce9b0efe2c63316f3f, 0x2d8989373a556639e33f298fb049824969a1a284b60053edb972a059136ad71d, 0xd3e416c0ae12aff59d8dd5cd5dc509addd3f6390db216742c517f2df71581df, 0x14b2a67181fbd9c813c7babc9d1f7a7f1febf9f512c12abd0df3466a29b49bbd, 0x22cfe9304894cf79a84cbb1b6e0b577d683b024f0d5a855d0c86a1bcb432bd8d, 0x1adfe9a64e8029331ebd2fa3def2961f5c955f5956d61b34c02d0b062bdd2a8f, 0x2751b2da7db871ba5fdb40e0bcda7cab5b157b5555168220cf3b7969d613cf76, 0x57f90a4c08130418250b790236f23f3209e88ffe2bdc6a240a812f3b571aba1, 0xad74ef09771099c040c2c546719783c39ebafd5ec2a55fc8399b04ab922839e, 0xb00c2fa7613b52e25e4a6cf633a33355badea435cbbfef67523e3b3b1b73ef3, 0x2795381be694e0991a369e8e6ce75e7df18d38c43af1bc588cdc65ed8e877b84, 0x9177d18cbff59ce67ee76d3d10d7df12fa0bb1dea660c3ceb006a6a3021de2b, 0x1bc77e5718826efce52a86b8610d9480074647bf4b3b9fa3707b681c1a855a43, 0x2f2d128b42d32102d05761240817ecbbcaa03d2fa45c5cb2f82c1a0c048cebb1, 0x215bfd258ebc79352a7a4faabacb30840f7eb357edd21699d5b3261b5762880b, 0xe6b332b4ae5b95d518e6aebb7a07fb4fc09235d37a4133a51be17fbe9f8274b, 0x272936773fc1a38aa82f7d3172a2477b601e1015ac0198dc2880a21bbac65420, 0x26bc4d42a17a0ffc93798bfbf2e2b561c15a7460e1afd9c23af7ac2a6de03427, 0x2d093621fd40ab76ef16fdf49a7923d2d12c0228f8edb9b86959684611367ffd, 0x275ba0e2a2a4c3b1f5d718b5b8cb8dcc4bbfba1b7064b6b38330d950cba0e84, 0x1ed6384ca9de788c235c7fbf0c31a59b861a52bff2847af2ab22592487879daa, 0x2c337c808bfe0d2cab544bd9af01f08f916d94b7ce0729a08cc4efb9eeef98ec, 0x2d3e0934a4371484c958df1e97e7f0f3984b5667539fd10c3e8e71246adad09a, 0x54e425aa02adacfeb729cae9df1907e4161302289467c9327ed08e35755cc13, 0x24957fa9d48f942073ef90a54cb0632c89a433ecb236d18f57dac5aff85ef96, 0x194b561a91334bd0dd4eaecfb94f03ebab927fe5787f1723c2535944b2fe6971, 0x1f5f3bb77a487905e3d39b2656b91e0a8223226a3cc0c7a473cfc4a52c74ac03, 0x1b3a3afed7a0821a684fc0d0f9ad9dfa3b557c6542bf7bbc5cf01bd3369cba06, 0x2b96619ddc3b2a292fceb07e2aa80c86ad636ea7d6d4babe8d2947e069390736, 0xba31e2d1e807374a710cdbf81f05af4faadce88ead0a1658b0b481406613177, 0x25d7d5bdcb74b92b74a604d6fab3b2f3a228ad23360e4def3919146e8c44fa52, 0x1ca9f911f0b08d1a6205925cde7aa5fd38b061095621152e8abd01654380fadb, 0x1a90d4e090aaabf652053435e3cdea5dea64527e5c841ea9358825e2191b48b7, 0xcaaf3b76909b0b1e1c7f4ec493f27501f5e6f08369e8a36eac406f29c7854e4, 0x1c8f94286e329069d1e80b45787cb308ce214b04999b3b99531d103fd2577cd9, 0x1acd43271d4b04976db5ec42700e83fb151359f9f260a5b9770873e3cb98a900, 0x46cbdd4dfe88c67791bb0c5ac749b5cdf44a3a87e85fc7bbc19b7839647a704, 0x2b4b03cfb4487c1a19d7c05ca15133be29c9d3f3051e4b01fa4dc573eeebc2af, 0x1a9a01f0040a3bea6124946a77e67fd3aa4fc6ff21ff5fb49c852ac59b65e5c7, 0x9eb5e077a7d0110673a617e59369830acdfee50de5823ae0688e60714292b6f, 0xd006ce7c187ec6472562d212dfc29f615c5d119057ce0c721620af6e4666fa4, 0x54bc8d659b31001a2a529f45640a998dcaaf2ecf1ff8fd3f206fe34fa84722e, 0x1ca1ff244c5106ea88045116081c201c6323698c6b68738166af8e7f3f8dd9bb, 0x4f254de8093f3fb3330dd7423d9d9e17357ccb34a3c18e94019627610cab1db, 0x18fa6af934100cda0123fee0b5636b693692d91cc832f87c76c04bb20950153d, 0xbc175cd6a0ad546d33298d27d2ce18ffc6995f153f6bf05c59c09a4eeeab142, 0x2e2b792abb6b6310e2cd5b188fdccf53028d6ca70604e36568b15f3408eea618, 0x1216fc0f6e7ac8f0ea59bf7840fc720b37848e6dcb0c77f253e2cd6833aa3af6, 0x15381275074173542cd250ba7cda6d1be6c12c44af2a00a11fcf0787421d8a02, 0x25aa562c4dfb0a38dd92e020b4d6f9b2769341f381de9c27af0eda1453183bcf, 0x19ac9e3549ff20909488ab728a6e88d10a0f634f771742a517e00bc2cc7cbe3c, 0x13c02339462d082f13ecc8ded6b2bcb26a8005a9ab55ef69a91f847e760bf302, 0x1fef0dcd8f5858f240c8986003e577a276a3526c6b45f75403e814a0bc620a1d, 0x31d9be212424a643c6c9bf144d81a06e6fc9d68637a093889cf3c7fee5e3ea6, 0x1a6cca07ef30d34314047214f1a8729728b8dfe8c0e55bea3564928b07de42f1, 0x2d3b9eda96cf186f8e0b5e1446543281931b260a3ff043c66cf232f4909c12a6, 0x7da58325965bec24b4d12d606fb4563a23a130e98eee7f7766a4a3558b5d6af, 0x2655571c23f7f1cd1be67bb24d4c4e7cc674b884b9c58ea8165d2934930d6ffc, 0x2e5ba95e4a2ce5c433f15ab0a026b1abc2b2cba256c61706b6997feb577a42d2, 0x3000c7959df31ee4bfd1118c7ae22906da8d802d9c47855050117926342bca87, 0x10e13d0881d27b08cf5b64ceef72c428ef1084679b539b058c81a17006abe053, 0x2be2a93b372be664eebf809dd873c74122acb3cf5abaa6c215871601b888f489, 0x21310218217a726cc850c0a7dc919d29ffa8b61ff606390b2eb0eca95d4465ac, 0x14d907f470707542205bfd78df274bdf24d8978959b44dbe9df7a7e52114a7e5, 0x5acfa1e857d8001ce311fd3b5d9eb3a1c92fc6e5dac2466c0af0b277816a3de, 0x123ffe61d17cbd6623ed486af0eb8e76d04de3a77a483c662b0b5cb98cd449da, 0x26368aa29474645edda1e155a5cf0df1eec95f4e895650810aa77f4ba7027af7, 0x21050e2060dceeb56367512af3fa11f3d2e6be9b72731255b05be5fee793f880, 0x22ee0d90c7d715326a0383c7abf6824b9d936af296756129574bc79af2fef0a4, 0xe457467bae8c132f687fc06235fa92a0bb2c3fde1ebbbee6ef83729f25f3c2c, 0x1dfb9cb0002a56e38b73913636fa56e26a3b4de751939d5eb09a3432a3e29638, 0x6c5f60480c00ca60c016f34a8ae166b6934319b81ab4b27beb44a133839dc16, 0x1284904157c07148e61e56297ff04fdad394a6990d4e47a614a00999e4b8e78, 0x13d10300ac391c78f9c215dbc5d2d461b62cfa5a3ac70a69bd470be5d82cf32d, 0x63d65844b8805daa8fd771b07c278404c728b665eb17202297266c422a96188, 0x15e3bf17c52830ed3255cd5c1149f3618641d6e7fedf468c305d08220dbc8a38, 0x12bf5dd5c3caad12e0875e57e19b10752d9651e3a5dda05c0f66e5bf8faa3df0, 0x243c3b797e831a55046ae8916158fe53648e21e939400f9f5eb67d6c0cc094c7, 0x1e28fa9b34c2c6155b8421edd4de58c99d1e5e81e92345f62319ab96df03e5, 0x2ad1dba5506ee064064963527bdecd823cce0494a86ea452d9b4033623f386bc, 0x23137879a024cbc1b4810ee54c7f9b85046734145f334a7cc1e4a57c740c8d82, 0x74f6fa62972968e22189384563d6752e30235da2275481bc6c3b056937c773c, 0x22b10a5253716d165a670736ee243de0627619378edbf751b46bda0b12dcccf5, 0xc190040f1e4eaa11b4fc7046995989680849177ece7bfef7b446513f9ebe112, 0x301875852c9ad256211b7f9f31ced8e2256188d32c3072c519d7069b0d10db76, 0x1c0f67d05ebfd650d22dead7a11130322bc1272efae98b85c815db6b318dda42, 0x286e9a17364f36946a3d2c7ba0612fef3fac60b0daeb6e973aabebce587a78f9, 0x2b729468126eaa101f4233baaa099d02db14fe35c48580eb3165c61ddbceb52f, 0x1f30f71406a5da98e929062cb48e0a34e473e832fc0ce811c28f09a31d5416fa, 0x259546f8419fa15978ab360084fe0a13229fc11dc698db8bb81c822e2c832173, 0x6e36124121afaca19887a7ca428e12c0ec8faaaf5d733ecc6960bd7aa5d7deb, 0x10f1ce0bf57c0778bf4de60a1e2bac8892de6b7b6ef2f8de911f731494260be2, 0x177fc951f639fcc274b4ee28f3f7ff560d6ca0d9f930f53d3abb55e6d75ad103, 0x1f34032aa46cc08d68555bbc2469a66a2efba23c56ec3dddc5836e2e919cd610, 0x269cd0b774f8625f5de7519be61857cc9ebe06d10610dc91d9f4cc57111eab41, 0x74f437828140fcfb1ae00b38c29a5080f0d0feeb99d4688ff8871f6349f3c66, 0x396f2fce8cd5ab3d2601d37f80fd9775aa5e9f56b406f015d9b095fe1905945, 0x2e03afbff73fb05f32f50239907f48aae1aba810a6312480cce343ec663f210f, 0x2ae899455a6a7c49997c82bbe36066ef1d6c22d8426af54d2c74970b33ad2a90, 0x2bfedee3eaf7340a10fc0971ef0003dc87cb997cd687ef9f7f88b30c3def2690, 0x2b50b39a43cf9f1d9feaf04a1f100311e78932a68051e792c23a99ff95139a00, 0x24d16eb1fc9ee39362dc66338ea0d275147f8a7ab4b62ceb26dc3e2b16c3bbbe, 0x1539d4f6178da10200463590c6efb1ca7305bbba935e5a7dec940e236dba2f71, 0x9e85ddcb02bfe0709021dc9b9f4efba2ca7a04075a78c1bfd29dddbc7be7528, 0x1fe7f77ba2c018282073ab4d222959351f7cc16cac7e1c6794611eed06a3813, 0x1d3220cf7ceba197899e792fd2b5165807a83782df55438cc8fcee6ae75659f9, 0x1364bb46fe7c79bc9156a13a8c86b77d3425391f7ed124a035b94133404517d8, 0xb70eea0fa95971c52b4c91fd9cf6ffb5de97e63e364028f0c0b1904b075b06e, 0x2a9ab96b4de33f8ccfdccd8e86510e8cc731fe673eb289d15a374eb0d055d217, 0x2ec7ab4d439e22d1d97eff2501e94577691d28698440e7b41190a8b8e0c98525, 0x1c1b59ff9212224422968e7616ceae71573b05c99e4bcb26213126fe4dbb5de4, 0x1fdfaa4da540e50d2bcd1a2a0975350f969e3492584085f7dd3fff9d8814cd49, 0xcc8ef6a3dc250d7a4c94bb890be797b91f08869a99391caf70e2effdf7f0866, 0x9e595faec8506700a42a5a41190cb6b9f79fae9b601cc6567569e8ee9e24813, 0x6047cdc0ff8bd94c6ab60e3ffea21912f0101a60bf6c2e96371be54e63d7346, 0x2e40288a4a681e1ff5318fbfb796e8b7f0b2facfa5c9e691a1c4924fffba4950, 0x12616992bf6faf5144c8ce58355ec2b6e20a7d25c7dfb13460b0722681596807, 0xa78425d56372af995d8930d48cd645a6e6b45485b4c06fc38e052818b5b3caf, 0xfe9c60a64dce8b45b53462ca6e68be325d8174d067471295a983cebb1c9a0fa, 0x2e7aa9cee7624f71fa4902971d07cd303319bf41007bdc4ea0fea40ef97cba1d, 0x104690cf04a0666f4921a4ef9f808fb9a3bee6192df0e6cdb15b6f302f476c8d, 0x2e63c4212a402284deddf9ef260bcfe7a395002e22c9a6155930533b29959471, 0x23de0c9527d4ede516b956c9200315866378510615815351bc58d3b5d6ad7826, 0x25439ed1737440d79e4be009403949ec9d32a0ba6ccd7fc5158ec97c9d32c447, 0x14e35080e8da90b17e72b6fbfffe126b09ddf0c0cbd0b226df54958e680afe90, 0x2e0e87ca0a2090d9ae1824cec8a389e001b3c0aff73e81bd25847ff0a45d1fa6, 0x1319e0f608a12fa01b7740a8e14066b880f0b650831d8f424b6af3fb361c6deb, 0x262b82f1d1d07bb18b9920597c3925a41c0a61436b71d24ee7723c7fb8875af9, 0x27773d7ae7ed008296a572adb64f4fb5c229735b259c03d4c439ec2ae468b77f, 0x5a65188ac6d6467e028dbe4b941bac5a81240e80837a519152d6542a5f4074c, 0xa2a8b07719ecfb2c94e90f8e045b18ec455f67325324c45119c0329195efce, 0x12cc316a669ced0290bec967576e8e2a9e9b6081bb09bfda6456dcd3fd8025a2, 0x25a05ba9a3f7dcc29a43df45efc404bed408749b7d2165038d702b303ebf1037, 0x6bd45d9b13af28e309348d1c06cf153b061e0db126ec59a8af095a310c284d8, 0x2f55fdda2dc8faf2cf83086758c7bc77a1a382934e7168c30a1e9daad2b96fbb, 0x1a468a18b185dc342ac6b8ebe53ef265c69191759e553eebbe674ee9763b1900, 0x31b0f9b6ffcb451f2617ee915cd6dafe17ac99689417b1d92698607ee005142, 0x28f95d6eb7547e7abe25d2484193bbfaa36c6576b19c36fbe06b4455ecd20f37, 0x4f70c340b166e834080afc44ae444ea1ef56aa8d084b2301e62f08e0777420b, 0xfd721d14305b2fd9b20975775f54e6c4e8069e2c71fd663a9c9cd0d13086165, 0xe79eb513eabd8ca3fc610965050510879c0d2c755b7e59da7726d0d54943783, 0x2e3636a0f8c3014fd963ff1cfefcc844a1763bfb2de23352ea55aa5dd7bb8f5d, 0xedeaf35f44f339dafb57e3080c99c74c107f61e3e0de9b8b4c234a321a75589, 0x20e4391350654d0463b6ea16cc68d2c411bf8c97daf1dafc4ae6106ebb347643, 0x1aa0b9abab5c77259b24ba6df035bf864c7e6d573480ab4b2d85926e95b0b9d6, 0x2b582ae7e00f3c6dd5163f3e44f8ae1f8eaa9324e6347ae9fca7c2a3af2b95af, 0x1107e912d26d0c4253496352f14b263a30a09b20adb31dbd4fcbfac0e4ca93b5, 0x131dec28abb0eba0e9821ffce7980bcca06046c12f01413ad00a19b8457f804c, 0x300ed80f4915fcb5dc8d420adacdc6b5417c8ce35d907d95376756d23236bb66, 0x188e211e215ded9c861d3a21f43f1578977938a5335be74325e0669e7edb551d, 0x17d321855d1ca0303dc7b0b2807c43de1880bb66fd6b3abfe5cc2c3a8e6a227c, 0x1528e096fbd27e0e0900460be22a69b7f82ca1aa08a6def3f35256914b050210, 0x271672fbb529a7df27dd20e888bf331f5ddef5c07ff4e720604754739fd56381, 0x2d7d508df128fa96da79116c1491d6d4d4d87a8aedf97b24de2f32e86855f5d1, 0x2c12ae06490344d658455338a0ba557e2a1dadbd8c9915ac402f2378994b3ee, 0x1ef7f571d7daac5ada2f5b94de137402be8a81f9c9fdef9428ff3f46bed81b70, 0x186213e6d9a5ecc85192d790388eafed5535dc3634d8359e730685a1d7eb8666, 0x370eb6d2e98282ce7eabd8dfadbc46b74beea0f05abaaf67af1698ab3d025e5, 0x104ffffbff2258b1d4a2c661d2d0cbf7896e05398ef373088bc86327b37bc103, 0x206d39d5af5e1e50b477e46c62534200bc043ca985cee17f0bfd3e68bc897ae4, 0x1aaa20931d5de5931734e80546c966b8baf8ad6c279558de1696b2e8b2907df, 0x1f4aa1784a2403f3c0b312e20fffc29f77e4d01e712d43a35b9f542d649488f9, 0x2701a0b09e785acd9711e5e6ff6232bc6497ea97a6ceb82d3947508bbb5202e6, 0x7e99ad5f3317c1ace19b4a7cb94b50900319f645b2b956a34056355d3b30047, 0x2250455670deae50875f75ae9779a6008c9fcfe530b417de4d423aa02ca98f59, 0x260d62893e254abd10f0e4f8be37b5221d15292ff00a8684f5e28b5f2495979e, 0x15abbcd2e0c442449275eca5e4911d157cb6dc045a595417834bf39c558f9f26, 0x9751f79321823f4bfb93804919c64e5cac1907d031085ff8daa9efda95e419a, 0x8b3d82cfbec8cc13f75f77c3a61848aa0cbc0dce4cef8d72ce3a59407b2e25a, 0x1976bc0dbbd83a1a26f9e14aa431e24a728af4e8f5cdfd7d29943dfc29a7b2c5, 0x4f59d201dbb263dd04d2c2fa396b12ba08a48989dc2464b3bd5976534eb38e9, 0x2bb23243e841c564e7add2d7b528d9af03fe75880e9ab76eb4d46a020ca6e30d, 0x2f66b96144ef6c5cae5bfd2511dd2456a1d6e3548569abec7d7a49e1e0474983, 0x29b569f2f67f1c0363f604936cd59c3299453d8233e796a25075c41fa7e19d43, 0x1aab6103104bd50f3a65eb42bbf901792e79eb39d44756caef259268a06d274e, 0x100955f3e56bd17a4eaff6f79b697742d0655371859bc704dcea5ecfc885ea23, 0x271b363c4f44f4faafa02db2752dcc192f4edf5c39c17ad5a7b8f479052711ea, 0x1021eaa8fa200bb0d3d7ef502c5d7eedf2a6ca36e63a37b5cedd98a318a7fb76, 0x13c6a203321170c046d7d44e25f21c4708f58404df6c2b578462f4ac181c5e1a, 0x66691a02754dbd02ada281da41893feebe687083f4ec299600c84657ef2bc9f, 0x16379af37c274e663b7e3c04ad065ee30999c30a05fbddf1a43037a8dbd4f199, 0x2e01cf9813252a5171624a4963d572e1b6e65a2b93a9c990f6a53ba7d5775696, 0x5a4ec77a21ca15f804aed87b98dc3d5fc92aed79c3724b3e9cfcf5c8d35bf77, 0x32f3bab069abd4a66aa9845e84a3ea1d390a3c2b094197a5591c6b0c29b4b2, 0x56416328cf6d47d3d291cd7259481443215b7d2904c7c5631bb4b72e83de7d9, 0x16c0689d4828c935eafdaafac08e4d909da7bc8776c76c5dcc6b4bd49c7217fd, 0x1d8d23ed1dd6a53d2c18f91537564eb706ec1139ba2240b733ad3acb847f7992, 0x1aa1a21e3784b97843ec620ca8961e8c62d5e12b8e3effbab2a4eed9b8a58de4, 0xbb54439d4c6f812a70581ab7c1da56d98a08916048d6b48f9540b451b7e66dc, 0x24421b73eeaf63134b46c29646c2b24dd7acb860a188b08a6ed1d00cb90b3c3e, 0x3045c2012f7445890f79f1567060c3c935965acd0ea551a671f1b625e684d7d4, 0x8ec863991a053feedaa5281098afc031b75551065d6d01f6deb04c63102c9bd, 0x250cb2ab9d5579a24a57faaa87f7c828c94952cfb248cc46d92ee60b8c4c95af, 0xf25b63b5eebc3198122c606b0a5b2de15e6f5fd2cd0f493f96265369642f93d, 0x2ef6abc5ab02c8431de8f7a64ba3699c79e1df0c8f2d9d5e8d65b792dbc36d0d, 0x1e84897766aa9de056bb5d97c6797bde93c3b0592512340206635332b5c22b11, 0x8923f05b050e6e0fec0efef4dea500ff3aec3054d4b2b0a1fbaeb356384d70e, 0x11687ac05e24f50db06335e1875db73d8f379db3a5c1c3b9f57b725b1fd8437a, 0x2755837b80549adaba47e0980907591229f5a6971ee0f33ac930f5be13b154a6, 0x9f80c8230bc5a78138f9952ba6b64ce623e12da019460363a49f5e5efc076c5, 0x104009746d61c0bb6643e64ddfeaa2d4f30872a92416552a1dfb4b75d4092d4b, 0x196e821f653863b14b72b19a068aac434a6013598bf73b28eeb36c41e76fc54a, 0x2c8a8a85e2618452a8d0a9ea592bc495a50672522536ec7663869f758ac720c7, 0x7bd4de2aec5a7acfa66678754ef95eea840dc97fd1679e653d5fa32b8ad6195, 0x2464a17f4353a76d911cc8349f5dd02cbf2b2c58a1b7dea25f000eb9adca396f, 0x26831294e338f44440adcf5dd1ca4d1412a5cc41c93a2037985eecf4c2fbe4a5, 0x16d69ee3ae6b20ddd62dd1a13d279d4d7da74b207bc57a15ac9ac92cae2ecfab, 0x16b55a792f1b19dcce6b9f4c9b61be0e0457a9980e6050da2500a409415f207b, 0xd49e31e27e1c71c16d524b2a8adb0a64843aea5da2fa4e686f183be95d4170a, 0x1affb8fd8b243d62d5d4a7b07b624f9a0452793d1d1a11ead3bb8284eb65f97a, 0x27da7ba10cb86c06758c55e7e8ac76dc9aba2e863c2deb8fae7525e42c96cebb, 0x27e1be0db1fdd736d218443f56d06987443704d18c42a96f3fdcb7c4536fba09, 0x2fb1dd1f7461d75fa3c1e25df670c1442b001b9275e670d73c81eb61fe028322, 0xf5f0cc9a3d4d3066c99194feb229f0e31831dcf080bff42ff1d14974f82ffe6, 0x2bcd23585401b0f7fe33fe366ce92e3acd8818a23550f3753decb1ec24405ffe, 0x5c552a02e2a39af0e21c8944b9c4f56e15b438cf346516ba2147356904f01d, 0x362a8a2865a2b2fe902831c8044c54b0ca94b95fcb79b65f14753c58222b4ac, 0x29bb183a6a291b93f0989746105e33cc669907250fd7064868fd313810faa29, 0x608f62214871578ed58a12dcc4d1c152af970e6e5045f7913cf4c40ca6df18c, 0x1f8a4cf532f5e835704ed7ca83effb517579006ca22ecd7422511c0391b5c4ee, 0x213882bb31291dbc346cae58fbfdcf03978152e15b344892a94c44e2f0b1b338, 0x297125f6728b65f189fab61c3896016beb0a972dd34764910f059508d7e8622c, 0xf76029cc3ff0861e048a601eb52a11cf1bfc69f2dd6ee1516a46e4865b7c7ae, 0x5a506ed7382db51851c224d5213c7ce6a22b19c7ff7a7fccc6237af1142bb17, 0x157ddb6fb6d427b97ba69e8798f3950d6888e44c60dfec0a98b7262a977744a1, 0x277aa399e55c3e5cb49c4bd8789f6551351da540cae037eba37543b045e91eaf, 0x1499091ae8dc567f8d050a0835eaecf4b995b5341d29c548da08391e6f1453a5, 0x200bdae3ef70a75a12979041cde33a178ec02b110abd379c2d26cbea9167b6f8, 0x2e6835de44957130dd724a0ac6335b7c35e8afad6acbba6aab16f455939dc77a, 0x9e302222c01cdb2c45e5c3a920edd82da3cba855e15ff634893209bbfe55d3a, 0xa5b412cccce0a371617dada267bc783ca19cec068f155d6954d279f3959cd99, 0x2ffb034bf2ba629ead6f8a6022e2339779e68ef2c8bf39efda1a0332e63debc4, 0x1f3ab3fbf5fd24859380ab59a8f72cc52dc1ab2479a10f33d7c5b7121c58176b, 0x8303d8ea6c4af050a906aebae492e32010ece609b5b2c6eb137ef5dc2769b28, 0x19f0945d9f71950f6c2b298ad3c646e4fb9e99939dc170c735f407148c792532, 0x1a621a5b24758bb036344639e427c03f33d25af7f7711c3ed99995d983c4c3a4, 0x218a7b745f35f497b4428e61c3b79563752ea6f8c876361d327329579339928b, 0x16ecebebe58dff59a7b0ba40693aa431b899ca7769b445a7387db118088963fb, 0x1daee46cfcbbd63435fa6f8791b36a4fc659f5236e896a4d447ab3da68280fac, 0x260875ca1e98e895c635db3bed500d393940b5654d369c61156db2927de5ed18, 0x1cbf71e0ebebc2d151966acc2be11116788815614bec66f68735914c3b8ade35, 0x3b2a320eaddf48ea570e643f89ef2272bbebdb1caef32aadadb22a918a8a99f, 0x72f534bf07ba555426152c37e210cc1d36d8b7cc42e1dd64a83081357189f6f, 0x17fe62a93a9efb1236012e2ca1064b1b93d867b0daa30dd334ee5ca08d304b07, 0x2ed3b5db7ad2fc083734fb61471629463d4696ddd8c8dcdb1d2fdd460ab4cd1d, 0x26e83b9a8a7c7bd6929f22021fea78088037c25c7209425ba83e998115335c19, 0x1758fde5e2d8b8886ae2134943407d8beceba4be517a01e51a51a9c11c1510ab, 0x233e22ff85bffcb57cf35077fc6c81963590f67e3484a67d846bc1cff2cbe1d5, 0x2bdd734a2d8a75f5e1cda7114a8c418bf5064398045dc7a9a8f31669282ce92e, 0x21c2e28d54733906bd138386d7f05b1cc42f6604df893509a629c351f57b95d9, 0x3ec3db419b789b9a13811dfa2c51840d3a01961e5f884148ab3f6afbecca3f9, 0x4452cebb0cd94f7163266aab365b3666d2a329d634ec53db009dfbe331062fa, 0x2374e7cd3492dde40a21a4111b32313df5a4d1d483ff38c4b0cd49214b12ee2a, 0x18aace16399c7fd6e9d2197c5d7879598d2b72bd508e05d6f8bceb7f3fc668a3, 0x41d469f85bfadec96c07f7756a6735f417bd7a882e46ba06ba075731f56b563, 0x10b3c1cea302fb6b1aeefe7a701890cee0358bb45dfcd6db64f90df964cb92e5, 0x86dff039d2271895d0a8cdf944d75ba54284897d14b2eaa009400a8d77a4beb, 0x72e72d8677f6a51f4c2386e2e830d6648c4533a72851fdba34a5083f00802ef, 0x13dedd574590f362b835c05151d6d7c1a721062c50f14453fbfce12812dec477, 0xf7b730b9f5abc35b874b224ebf120d469bcb883d4b4e757e8eb52bc26958084, 0x23f2dfd0242e0dd9ddf76b575563e69868e13c2cf3982c52777e6c5339472083, 0x264032c844dabcb025545315588b4509e27717b8e964f60404d2a98e8c4408ed, 0x2a505c683ed009b84ea09e705b1c9256187a48ee96064d3f094d15a931c09d65, 0x12195fb5314e5dca6dbb5301a0bab3741522aacd9262c5503deca09ed3b5bfa5, 0x2b96748cbb6147ef4860f0d7d93c21e42a84da2a5d24c07f2e6990175e362138, 0x168dc4dfaf6fecd4884881fd5f0feb2799adb041c6e16707f9f8701ca3535bde, 0x293fdf5e9741851b6efdd21641894eabaae4e7bd4b4b91d727a80ce850585439, 0x108d4122ffa4a9bed486d89bf9ce7188e53e0161b2337bc5bfbd81c668144e60, 0x1d34ef90f1f5eb9be9a718c2f5893fe4dd422203a306f961707b4a179e8a8096, 0x2d6db62f91949f12dd7df0846c7d73de9d13f571edd32a1a3b1e57efc7967049, 0x18ba73783f66e8f96616221f4959a5a6df06ceb5bd3d362fac4b106111ee2d52, 0xa17603d2299bbf990ee1a95b5acc089aed11646ffe696ee065bc2ea650cf6e9, 0xfc9ee6b510c00bf2cfaa5e6122b6e68ca866fce11dfadf427fb770d8c25d2fc, 0x28222e08995c93e38c8389bd32f39dbcc203d0efc4011447c543d051656122cc, 0x7d27a8bba7349dd716d1cf2a9595740dd41313b93989de7e5e9faab97ce9b46, 0x14498b47c4b8f2663e422f7171b4a3c073d3aa17895b331bccd09f1892788a8c, 0xbd8e776f3ba7553933619f60711184e85c1c6b596b72abbcbd0d1ef0f067fcd, 0x20fadf38540e1e46da22ae56b75324b4983031b9c8f5198d32c50d5f25b03a01, 0x269997eeaebbe58b6ea9f9e7fd79d185bac71585073928a74ea6f594dd2ea05c, 0x287d91c8eb0d2d0882fc5764dab5404c8a8fff1685e7ddf656debc7b3b6190d5, 0x878d3344a7d147ffb4c047b7d6dfa85a864deaa4c16a6753c1e72454c2c630a, 0x2e3c4acca0611112c29b18e0f9b59357f7c5dcab7a8d5f9abe92d7b2b2aa67ea, 0x1e288d37cca3d0ba558ade49cc5220ef629ef5436799594edcad6055c5bc6943, 0x1a1d7f65598460c079f75ba724389d5118d1420f958be0348fed76ec4f705786, 0xf1a6c587f154cb9e0922c5c4d8d277e66679ac37eab5b27ddff668615ccad88, 0x2d782792e3cfa8411cf6233e5be30dec0df22d36c9d207da85ddbca5ec747197, 0x1bf4dc59b31c01ca9dd2d9a70520ac09d1b863b4e76471da01544f06d78a9be0, 0x29abe14d44a7721ffeb528360662842162b170818106e544ef147291047c3fc5, 0x2f4b020edf60204c8dc75abcfb07605173cbc68c4d935d0f7e654f104696fa8, 0x1c692a1214bb6ae2c5b3482b96ec4678c2f7956a82819e3a9c853df4606b9a9e, 0x25cb9034345fd345c79824069a5b9a05b77b94fbdc24eb5782d55622db5afd20, 0x15ba65b32365befa2f7cb0c5210eb901aa409689c9c74bfdd2538d78025a632c, 0x301a02d45faba3c161f8250a2e7e280d56090f4cec023448ae1199fcbc58aa88, 0x2e95c6f2a67a136f5124345e3a43ef22edcfa806abd731c91a4c3003fa20f355, 0xa1dc1da90f177ad3abccb3513e1bb7440d8e695f2cf080fbb83e61ed285e871, 0x26feb10533a8b990dcce9ec02e87b7cd30753750d1156a52207b82ce63a92c51, 0x190eaf914232f96cdd1de4bbde137a2b8aa7ba817d6d4b1dce5dd3f03a841d4b, 0x1d441c3fc47fe77a1883e06966c8980e5846878e97071ee0e99e560efff58b23, 0x27028a819695508e70882dd56a022e912e386db46dbe0d8064e11c8ae74a2122, 0xa26bbfd50a68ff9f1622e344e20bf890c2a198b6a58bd822c722f7e42ee2c53, 0x2551e3511c114035df498e07d8354c042df31b0bd3ee502c8c20ab8bca826fd7, 0x17c6203deb0a803272043d5ba927b5984c078c00a29002e6553a625efcf0b0ac, 0xdea4d4c52bdec214ee4e0b88bcef03e062ee2dddab6d050b1450c0b95a51c7e, 0x5e660b1552d34ff3f62dbc5b1ab67e8e1156df506c39c0ab1d6dab1f6f9a62c, 0xb9870c2d17bcb2bb8b2259ecb2e54ee162362cf9b18243c886421a90a646c30, 0xd83ef93bf551550434dc0763cfeb5c0ab614d47cb0cb3c79180ce551849993a, 0x2bd44845898d89a005f5c1bbbf5f5b8e985d48e916285a64e676a811d5733ba0, 0x255721e12fbc82235e64a106731c12910920c71bfeb39be6bc82291d322e7f34, 0x11b41910ed33ae016c7d059a373657f56ab1ed3afa884f6aeaac3e8657b52d6f, 0x1634afe1bbae1766b7ff7b11b011ef9f88ff0dfd8834fcb085968a35870c96cd, 0x17e992284359e923536eed41bd61e308285399a12b6c1df22f6570bd00e5a237, 0x19808c7e543688ca243719dfc2da130147127b0d441d88dff53443d3d7db9d90, 0x2aa19c14548a4fcee170c0196d363e8865064bfc982225d5946c7ebff7945979, 0x2e6a2b023ac766e7485bd83cbaba016a130c00a731134bf66692cd5d7460616d, 0x4e13213097cb24a2a8b3819019a0b676bcbc81d2ff49af4da8c7cb0ce8d5125, 0x436db88b4f66de384baea73c505b871c79c2352600f5859b30e218f07326ad8, 0xc97e95688ee07ffa790567816e31d6ab7bb0e6e8f9d3e9cd09a9b1b16a9094, 0x2f04c8c72c8a00180ae6d0c29f2dfabd83d0d660ebeb5e7af3c6024d3e577747, 0x15070cdd99b9b5cdc0694685bdb06489c56f2c99961e1ae996608516cfd08791, 0x134e38e18c1f42b857ba214be75ce4b5d33155ba10f9834e95f3a96e25e2f70e, 0x1711629053d5021bafa111ac20ac85161cdec854fc170a064be745471ab5deee, 0xd072e1c8ff17213b27848557a426701aad8bf3501c6a55ef01dd4b21acf017e, 0xd6cba818cc9b0f4e2323a073869c4d4b4e5dd95fd04610ffe27a99687fa98a0, 0x1bb7ec720107065b5d75fc4539b3b91af0d95eec0b51ce06f6ae3b40f10a54de, 0xf4b198af2aae4c1f15035affbdd30647ad04861de3e653a767efa5036bc59a5, 0x26bd5d4e6a15ed6e2ad4caf87762a8e2533158c689ed2e6b14f537f7f8af4891, 0x1db762c3e18bc6c00dae8124eb13921357a9cdb2a7d8d5af899ce5c8a304ef4b, 0x2421f2e7882947e068b590493df453dd22a3ac41f9a81e048fd5c80119ff62d8, 0xbd9d71697d6c92e376850493ba687283e8483b529a57bd6b8f3240947310cdc, 0x264e510e5a7eb58fe37c891194e7228737e2c0ac2fd9e7ec416e84bb44835025, 0x1a28efe15e5ba6bc2ee602ea858829d54b1ab7154cf94bb948171ff092f084a5, 0x14a206642fa9a6cbe78d6994d4472aec2d66e9bdcfeca4cfc133855662a0ae15, 0x29195f6f5eb29605ebb51348adb72b86e184d5af2a55979e85d8c37d5fa377c3, 0x2becbd1aa2fc1d6a0cb87a7432ba18070d4d8d87c7c5085cc57a36872cdcf496, 0x2eb311c7d96af1bbbeedc811dcd0cf3b0f3a0b932daab80580ef19f2eca4dc7e, 0x6b13b0ec69efec0dda80dde05a22982e450da4b719eadc02e8e6f0ae8a9c8be, 0x2951569586c452e57a16deffed6643b907327ab830fa43c7616c6bbd7b337fa5, 0xf80913d6a98d68e7d203149083421598790bd17fb71aba3be68235da31fae9a, 0xf6c6ebc152c7142355f365056108ca2752a939343f52d4cfaa1ad0f9ea80627, 0x2651a3545d55a179b95c1d5ec9f4790094ccefe991b43482d3accc1a5e6bc41b, 0x19ffed697be990bd22c33a3152f1b61d924a88f25a682a604814ab0f83fdda64, 0x514f51112b2131ff7446bdc8e6035f8a15633041e31caccdae57a2cf2e6e30f, 0x27b250eedea12787b0e74c67fd29ee3d6f3103204b0ec153bde1b310ad8ab960, 0x34e3b092aeeecf9fcbe012250071b7d86f50ddfc68b5bf59e57c5f93c71e1c9, 0x1453aabd4ab309ce11df060b36906f221e34ec457f3e1186e1ea3369be4b923a, 0x11680b19c0f622c3aece37013d9d9c6b094dcb5e74c08e22f170fda744ee17c6, 0x25121ba4a0ade9a8b4ddabdc337b09645ee6c42c3fbb6c30ba0fb457bca33d99, 0x3010c1d25cce64f6dd36355891cfa681dc6e2eed6daeb368f6678ccb41b08350, 0x1d50c97e2fc85017040cc192d199ce96cacfa54189b6d66af5d759fcb6bda79e, 0x15cdcbb1c5317192281df60267008a9ce8db866fef3ecdcccc3cfad29e7ab2aa, 0xbae86292d004b61dea91dab5addecd8452e4dc0f664cc600d2cb6963b7df87c, 0x966e0ae7b6e52fd18185266c449aca139d76048361592d38632a20c8d0246f7, 0x1cae92fe86f9a7ef83ba0419a261dc83aa12a12656250bf6cdb92909a8510867, 0xa2cb83a054988cee1a7a847c228c8006686ea62a6f13dd9535dba248fcbd47, 0x1417d0b749fda05bc8a36f41f3f714025f2e4acf02f6f6160714bb4d86d8a7c4, 0x52c5a70723442134e3532806e57d283a142046d2a83291da792cfa54b234782, 0x22a8c9d3df25905c7bf99c0697e139882609c08276a171c88dc02e85db49aecd, 0x1c388261e076a0643d5479187cb6ed2431b5e1f531f91cdb5127baf89c83c73c, 0xab262c3215d90263f02d9cf1a2350d9d5ab0114a1ac7826460f34635a55c7b1, 0x21aa865cd024cd02104da176215444188f992aec9b53b65b9cff6390b28ac2cc, 0xb048e05aefa0fb2c192ec55690d16ea6a969d2475762b9d21fdff8ada4a0bce, 0x1cfb664fac48b01372f86f107860398c013c2361dc5671b98f13855c15732ae6, 0x1c63978d82984a8f5b105d597d65a437c8298fb4074ee140622e9cbdf39cb479, 0x68727ddec782a2d0c02028fca3757fa85e61f33afcf5cd35986732216509c77, 0xd890582cc215340d3476b50bd8d22261dbcb63ee7c6ce19a411e809b731a563, 0x184cd8e67d3346b0b1ed513225df4f8811f22b25219ac6cadc08bd27444c59f5, 0x11aedcd490fc770af451bb54a698ddbd4a3ce266715ea85b990f01027910000f, 0x296da6e5e32c20aedc69a743f6a45e4bb8d5f6604897b1cc751bc426ace0de83, 0xba576970da392c54477158abd25968b60387158cacf5f08288954e11133f8bb, 0x197e9d5129d713e382ae5ce666cd1276f88ddaae7dd50dbfab07019bc425f6df, 0x298529230c8efca126f2e5f127eb577c1f8dfde4f6132e61b26933726cd7162e, 0x97ec32e1e10cb019fa5ba87a78e31b4f56387df2dcf210639c9d9623efb5041, 0xa696ad199a61dffa5210f5a67ef797951b25960efdd13ae477852993d9743fb, 0x20e69110246861565203f2b3fefffe68667893cd881bbd0adbb07306bddf4ed6, 0x27890f322bfd0fabc9682bf60620d1fc0434475394ec120d77088043513a10b0, 0x19df61b7b8dbe8152c57a8d9524609ad5fc58b95d9dcbc6aae0fe50e5a3f0671, 0x1f159a0092e8e13753d9a47082ccfd4e9ce23388fa7f48d0341e184beed4df69, 0x3ef8afb36ddbabdcefa9b43d1e5557e89159576e54c7b1a177fea5a093bbfcb, 0x1ccdffa3a8f918cd338b85146b057f87f8616a32159842f55744cced8fb463b0, 0x10c6ce580770b491e04cf22221cece5ec710f9dc7048a98063fbca9b0e9ee3a1, 0x155154344c44bbae48882ab681e1e402f7265858a6a499924f961e4241d7ea1c, 0x168f28d28a2797945e7b4e7b585dcab192b1fc073f6b0e62afa8cc9161748c0a, 0x25d99c080a836ecf0aa7e1299a757cf7c5d0a96b5812547969b3f09073d33a6d, 0x955ad1ab1074db1280c78753ea4343ad05eee42d0bafbf3212c656c305ec55f, 0x8d466d64b8949e4bd175392e4219922973eafcbfbd965cb2455ed3f2186f33c, 0x1349923426749433b7e0014e827b3540c03c3a7323e7a25a4f8abfc14d492b68, 0x15792bbe2a6f84147f008f84b591b583e6465cb6238ef540189f5e69412dd9c9, 0x61a685b4ed05b65843a41c24b236a2a7b72ffd0602030b63b783c1e23923096, 0x25d7f0dc3e0a9e71090c72b48b051b8d8fbeda393d95bd8e9cfbeaa19efeb642, 0x2301c0c319cfd5520bc7f972b6646661135b2ac6cd82b0e8fbf7c814a9f38af8, 0x2d6992f2df7b56bc9fa14e65d0070763dfa5c6d70bf2fd88e428ad1df73fb523, 0x1e6621a98c65ef7ebeb275f696d11110d83ca8031014576baa10ecfd8411024, 0x690e58eda24665799a2a1566986f05b3c342340a2855ae746a9aa6d7d0be2e8, 0x282924ad2ab431d50d479c2d43940b471352850f32fc7b75647a537189e981e7, 0x3983afede48f8107d3c43d8ef20050071e693e14f75835e7ce3aafcf2099d72, 0x2d3e2cf3dd17405faa9cabdac559cab5c4b88c053ccf888161a702d9d08314d7, 0xa4118cb11e35af09c80a762b665cfd915fb9cc105a6439859e8d09c6aae3b32, 0x1f4f2acbf7868a099c0cf30ecfcf254210c0a9b6dd952090027f65aed87c2701, 0x127456c9cf4b04c64ea3280f18b4ab9e1b9640762704c9343c5c93ca26dbfe2f, 0x22f606187ade91dcd38f9cc7ffbcd51753713d431c32f26bb50f1a068d92b70e, 0x231cc62f25f6169d570976385132724cd5aafda34f955f2fb5578c8eb6fad2e9, 0xfc97d0e65f7aeab397cafc36966abdea922157d67dccdead1b2315d1f008cb2, 0x2a07cc4343ea1b38982820bc9f3d8df014bd2be58b9f9d556aa1b75511cc8b7a, 0x205612cbc125d00b4a26d5a2c748cb7b67f7f74e5c1a3af99d2b53b21f904527, 0x113b94fa0bb37a7ce20e747694e19c4e197af3feb03e27e55ce1b6da8c7f8151, 0x135f57c88890b109164b1f19934b0e3077001aa3c399b46cbe4b3d45584aecb6, 0x12fec523a77be075ac0c47862f2b18cc5e5f5caa1dbef3d907c92625252e2702, 0x24f864be35ef6057de078a85d1e96a6b6d65f5f76042fe46c8a028016c99163e, 0x32a288d270185bc167bbc21bf43bd695578cfc4dac4f59ad26adff03b41df3, 0x12a7a229b6de329cf40d61de15118d6050b9b235d6074565c93938cf9b5e564, 0x58b63645e3963bebdb6eb639106c4e16c0fdef2be8263e23b8603fe2004241a, 0x19a5af0c2b00b1da07b9d4b535bbbbddf052fdd09033541683fc54fa7cecdfcd, 0xa2512fff94ebd00571d056704d5cd4a3d8b024c36eb2f29a03d0a6a69d472fa, 0x17775fe72d1785abe11b76379bdb3541c88dfd6bbeca37d2c1e6acf28a00e5a5, 0x144777351320b13697917dbba1c252315ff85fcb9e5c10f642c41f906c8c2cb4, 0xcce87088d369ea25cf20315db73239b31df897915b70b38009d083111edefb6, 0x1c83604318f78c187a80c78b8e2ef66b48882a091380583f3c14a5797c3ebfbd, 0x195b1051102ed693e26286faef407469f0c233ea68fb74be5b8b801df4fe3972, 0x2454f53ba4ff1c09b2a650cdfcc32735105c03116b254c20bd8a196285cf6ee3, 0x2d0fe154a855bd683d4676c3607774c505ae33b0656425e2dd21a61045c4aa9, 0x1a9c1aa65d05e90763237b686a59f2d738ac1eebf433993e27376bcdc6da398f, 0x380c6ffec35d91b268052e8575072da510b5fa976400221113df0adc2283e0a, 0x2f4835b7c8938e6e3d5a8d853cda5e24c879a5e0e7a79b63a8af8e3c02359769, 0x1278111dbbaa46ab94479485683e473efdf45be249083c3f65762dadedb5dab7, 0x2f6d0e205916919cd7c5381ab9263e9bfd975aa7cfa45ce9eb4b6799ff903538, 0x987b79561d0d24c5fcd6c6bf1189b13f13aa0aafefb98a6c11305e7068f9a15, 0x20a1f94ea39d9674beb0e237b74d92706b8f1beff58f420feb1a0629938ea44a, 0x46624944f67281a6082d30e31a2d78225dea00bfa55ff2ebd6b4b6a4bbcfa0d, 0xec86df4e2404b4d4c5c1c7f2b7cf4ffcae2baaec96f1c93b5718c46e32f4b5e, 0x17a988b62f34331bc23c5c66fe5555dc2af680f9175c4e95269ff265641a7c28, 0x2f933a4009c38406c103874cde91ec02d622067c7cac56890403c74408a1efc3, 0x29c60a6ee7e22c0b8d8a51cf87215d4e3dd52c23c8c513a8c85c21205adaf4e2, 0x1e2e3cdd712c6ac039aeb3d4dca4e92de5124a1a92893a8f1b8b6dd17dd020d5, 0x1cc0cf1b5a677bb56afa928d7084c9e31d4f54691a9b90a2f48220fb26fb534e, 0x3f5f53cb34ca5b6476f61d4b4cc01e1d123b90dff98e0447c801007e6404865, 0x264f523407a076b04f72e26834ce8bd45b8c90dc4a915fa551f3ae56d50db503, 0x1790319745f7932afc826f8c296f92b2c0f7f6b3cfdb4bfdc763d0a1f28f370b, 0x3099a72a9c353b329a1bc4baabb784501c9037ba736c49806f1da48291041b5, 0x1604aaa41bce072f44b6adbcc0757542e4caabcaf109eaf7af718ebacb090fe5, 0x10eeb59a16fa139267e3c45cef01b53ce7dca8f8808ccc248fdb5728a799db67, 0x12eab8cffcc06cef8d112bbe5dfba7e75534f64c4461d162fcb3ba06715947e5, 0xc58e04653d88bba71e9f539b5030b937dad2405d225a30b5a75da8ae19c23b0, 0x1b157f2ed740cdbf798af092aae5833bf52e391b113985ca6a30eed588cba4f9, 0xd0837d097cee0020345d038d3656de14ee4c2833bb9cd0da1aff2399da436e6, 0xa4225a5d367e0ce78a1255c9a69aa626ed22248763d190ed9dd0f3d35934154, 0x1f6a2819a67e201a2576f0affcb09496ed7feca0b85058411d09a6e756ffe8e4, 0x1c674a9b9fdb49fc966e064ba3da32c1ac2d4b6a1b4d06b96f75e31605c38cb3, 0x20844cd477a2921e8ecb26eec231d8c6d9b846dba93db5eff2200acce3dc5312, 0xa8fa6b656ac797be797f42e294b3ac4d9ea7d3d52125b9fd77f8d44cb729864, 0x265947fe0877c73e0c65af54f643b0f3844a4b74de709fdf77156f4c338c8007, 0x1f04e4663f2f9937cf07d3c2fe5f06e85414b960dc77a19e8d6e38c5bced7d48, 0x6d020f03d9dd918c985f1e7d5cd39fad63f6459055f85e1b8d65c257ad64046, 0xf4fb8263bc813190c44c383d548741b244d213df4344c3dcbce797969873951, 0xe3b1e6adfa05450afba7cfbe8e8a08bbff6bbec099c68d5755f096075c21025, 0x22fb7c00042e5e4ba4b512efb900224bc6bcd53cb1224f3cccd425331fd6f831, 0x19375dd909e5ec26e7274bfb8b402c5d58ca19317505bd446ae80dda553ac71d, 0x11d0952461edb9d24c6bb08afd369692173a72dec287f6b19353c3bb540dd34e, 0x1da0872acf3b35eda099ccc9e9a5ff2477889bfa122b5bc54b4be05e898702a8, 0x1a74a3b2de9a16c14c026b9c511152cc11740b9b9d99b6bef9f44cbf757b7376, 0x221b345ba4b49dcbaad49fe51917d928c533cdebb44b095080064a93e6ceecc3, 0xde529ef32404116fc0dd6041c8a9d3f7980963143c3e275f29ec6386c9c2bdb, 0x1df03417e70bc8a58129a73f2bfed475f59cf6940ba48757c860e4d5afe912bc, 0x1a6a6c5e41dd7ca162312935ffa4caa6e1681769b10291fa65fbc362c57f7c4, 0x26be4ab855efa2c395a0bad51338e24283883973d0dfeb2d8584bb3941f7b92d, 0x1f1c7d227986e5a9a329bac19a23fc7df52609360d366e0afce5913a809f932, 0x75852ae085011a3420eef6fc4d51c8810d40f57ce4c54569e0349bdde64f25f, 0x2e69ca1551e48a93009319aef40fccd78b8ab0eb3e6a75aa3a7cdc2ea9510e18, 0x21d1d8183e5430aeb1be773620504ba994c1df4ed550a87505fd6889bbc70940, 0x11866d8bbb8cf8fe585de19d816f444097b0d5eb88071c2785ac3a757ea5a973, 0x18eb3fd0f6793a01b4e4a35050555a79fd43c7d9b305f42e9b676ed7855086fe, 0x2874e162935850eb2b1e7a99847dbe48b39726bf75a18a99892b2bb6dbb141ae, 0x43164e5c0d618af751f9458ad6107cc2c18b4e24968614daa909f3a664fc898, 0x1c7fad75476d7966314daa926e188ac033bc3c0e9d754db747659d9845285f15, 0x1cafa60986645969073ad8c0e29d8d46c4911b3336bd15a3895e10d0a39378, 0x59b39a84beaab3bd16e649114d507aca8b49740ddbc4c7e709af251f7e5c002, 0x2ef7ed14755d43e71ea6eba6d478e4197c5368cc9d7ff7c427e3c97adceafaa5, 0x7e262f43947c3e4380bed5989b35368f6ee10185e911e2991845730df2acd78, 0xf54ef80d9664876e7b9e9cf8ce300b9fd82929274f8ef4ba503096752083517, 0x17b19a0cd7597c0b95a9d1b1f3aa38fede0565e34ebaee7c9957696f92a3fae3, 0x23724db078fd410f494e5381886a2848618ffd4a8c088fd51133b0be784417db, 0x87f6029159cf77cf228c9cf137d25fa4d842a084fea42fcdb2d0a16dc4cb3a9, 0x2c91b436e22203f5cdf3b1c2188626007312b7e80ffc2c70264ff06560f3f52d, 0x8b9793cf23fb5b0eebd2647d2bc7d4cc901d7074715b445b14fb64a55e43bce, 0x214143f8421174ad70d3431efe9d40bed361820633e27b91cf0505a8950b3bed, 0x1d5b88560517176724a85325f6279ebd9130a2ffa28cd00b07286fe3a982214d, 0x14c9577c063d4dfaabc8eed7c32b99a187028d866e2b991974e6e63b0f838fa4, 0x46273375bf435bedde590cb2bac88efee89adae8c6e27b01f7792493074bb34, 0x1fd89f063226990387b017ebe985f55d4f6b1e5ba5a2bfd6f2273d2d6bb6a81b, 0x502081f3b1250555aef587cb5b4b307d730c1bcd151adecaa53302fc2ee7bfd, 0x10baa6c318c7e6a3a3628756ad42eca66a92be51f475eb386f96c026772e1cb5, 0x1dfe4501e8b2ef4184e1a4d0f0c9cc76a8949766636308b02c66ac9823edc65, 0x1a72d320faeaf05e0cf44db930bdbd8eed25a09bc14754665e7fb5f28ea3fcbd, 0x266b33340a8bf66136e7999ba473455bd90f8aa53f455343339ed5b5320b0691, 0x2448e52e069c6b44402d59573822c3b5703090216d607de4bfb678e1357b958, 0x2aa25e459065532b65ab2780b63cf6f03d872ea7596647bf9517ac628b79a226, 0xb1d54e7898b63a3adafee6e3a36b2aab81e39bf3a15a9b1f479b7499b2efd7, 0x246f7f7d8e5ee80022d45348a5aedba8612c3cf4623a6260ddc931952512c4cf, 0x27907ad369fc4b8372c78e6ab39d4a3faa44551f00b83d24a9e33e01df07ba0, 0x2b67bd277bdc4c08c7908bb15ad397256efc62e0325327f8190c7ad9b09ea5e8, 0x8a5e948d1db145e20bf0abfd419e70708b2017e8f8b1170459c2c767a7ee354, 0x491c93811381bbf080cddda20357bbd01755d50eb869ac50ebfb775b49599fd, 0xbbe5810c339505f191659c51feeac4d6dd8bc8396f30c1e4b3d89884035946c, 0x3b065bd291e288a177f161e35c3652c57ef70e46e1742ef750ce63d22b24810, 0x11f25b85db841ff7648ff0e35ac0b6c463c714fb2bc5f288970608ab353a6aed, 0x2f14f75123210cf69d38f2f32b833cae0aa310e763486126d0d36c29e68014ae, 0x267179f1f050aa24d1777e348a99dace45aadbf16420d828e91f7d8ba5d6b6ab, 0x2d760a9ccd958f723e082c804dfc2906860767cc3aba88b35d47d95551a1283, 0x42540133fc254876967d2739f1014934695761da4647d330b180728d9db97c1, 0xd4fcd586135326975e12057cde193244cad1504c4e147115610c3affb06557, 0x27a2352f8c5f88f643d6dea7251b027cd3aa04364fae60e3e714f684d05a8966, 0x1c7e955c7dea3de14499e1b00c64512b1d0df603c5492f1d75747161c2112ecf, 0x50e7bcbfd9fa9c1c4d29415b03c0d00a51c2bccef5b1c441d8301fdc7335956, 0x1abb6a8eadef0940704d611503c9f295715c3c4ebe023abc608a8ff3704413cb, 0x656203914995f78f4a1d5f2546387ef7e8b51497f5796521999bf0e0d1e80a4, 0x1a2a69c7673f072aeb2ecc5e750c81bd0af565c71cbd0d3367efa7779eadecb5, 0x1599622b5b0b75fc66ccd9ef20ec559bbf3f51a4a4ace856d8f687f6845c8926, 0xeb54dfc23710746af102dc417a3645f5b1b87d888bf8db5c8cfb4b45eb03a22, 0x19e1a6f91e97deb1adf0d25cbaab09a1f72006ee92a36eb59f32cf304d889864, 0x201081529413a6f1f49f3d52dcddfc74acf146c6b32f85beb35149479c891d4a, 0x20c393584e2857f57c23efeb7820186a50440c935bd34a4a17f2a5bbff287f1b, 0x179cf0461c98a99f70c433f74f60fba50e7c2fc9bfdbe500a0a512f6be936934, 0x138cb76d3780d42942bfe0043d625bdd4d6e91c83be4cec3da085bf250c18d81, 0xe70444af01939c62a8ca5ff3ddce46e29b1e45ac6aab7d37297decf2063fdce, 0x142b10f58204bef4cb15113136fee579513c126a168488c376c21adb62827961, 0x124c8c607612b5fbd2af84ac37bee103eee11a4eb711e11fae7700ebc6387fb0, 0x143fde70dd6bde8b26a0859cda512daf557c452fa5f76b542426b9fbc94f7446, 0x24694de53a139a6435ecf716b4139ebd01cb403a2d386d58ec733736cc21692c, 0x168618466211f05e88a1b771ac8959fce3a6352cb647d47346014bc486f9c0f2, 0x1b9be7105266245e707a46e2ba3de8322d4a8e7bdca43448ab05a7275e74e43e, 0xfc2c8e1f54e166049d5ff37f6b5fad79ae76d7f069f98f8fcf8f367c0fb3b88, 0xc6f5833230640ce8e70af4dca674821cee720690bd349e645f0d8f59684ac48, 0x24560e4af49ff08a2226a7f095e44890519c9b9976aefa3514c0b065a052e340, 0xd61f061762684231c5f469ee0ac33f41d314add6a79d553c642dcee363ea047, 0x1adfa57f4ec443e497de3046f64d189a7cdbe086d98c94cb1d003a59265d40de, 0x9fc22885ab01975ba9aa4c8692a04d75e50971f7dcb7738629505532272651a, 0x1c01bf8f85c8bcc035cce929aeae20e5bc95e1d36160e286f5a373032cbb49f8, 0x2dfbcc48d7241a6674803aa64253bcb3210db37af2e9c036c47978c9842ae7a9, 0x27b945d4398db7c68d13576a8928aac99aca88a180b31be985b85fa89d0abd49, 0x277572bf0b290106380c4bf58959da217f9e689940d9db0fdbe79c1a154a7f89, 0x831d1b88af8561c0eee6964bd720c377d04361f9af65ced7f0329e7deb715a1, 0x119459ca339e5c8a1b36593a8a091bbe9de7c8619ff83a8d32a566c2b15336a4, 0x27e8489bc8ced6a9f209bfe83f6e664fd2553ae84632a8dde85774f86a714f94, 0x10fb6c8fab6b135d7a50c54f8b1fb574eb0542c05b9bd84aaf4ae89328d6f53d, 0x1dad3864816666ca3a5d1fcb0dff07bf12d352f08aadd1d4a14b9fa9b2ac057a, 0x2439afd2542a9c564b85fa68fec6f9fd48d54c398cdfe14eecb7ed7d9e09642f, 0x2bea4058794d8bd725705e650875da2153b829dc245970082770a03546636a4d, 0x292712ecd08d349bc03fe610ec2a0e7d9b8383e3df3c13af7e57365b48d985dc, 0x241c1f77219d178d4d61f50838a69b6d7029ca1b36d3eb348a0b1a0b64c43530, 0x21919178d0ca9874c90f875407e6de742fd647a7679689972cf02c2863db6e00, 0x303d796d52867e994221af51b2120ff3822cd8a0637c9096efe2e9aa3d2c7b53, 0x1f0f30243212eb4bec6bf9e8b794989abaddaf1357f7d81b79f227314e9aa843, 0xc12581aed963a169ff1c33716c8bafc6be9a8b6db13a25889218223f850de7a, 0x11459ddfc0f592b264269706501c04ce7bd998547979253ecdcbccaa3f54007c, 0xf2b37146a0a04ac53e7b630871db252a1dd84331a8d39ea02961f938b5efa1a, 0x21efcae659790676b5d9114b81d60490eb551d6b21f65f362f08208eafbe4d3d, 0x1e1b56c6f76e3cc26284b04a42b5a02c5b9db9b842272100245dbbe7c876184d, 0x1087be4d0c47bcf20a815f60ce803d5fb9216f1d0b474a781c85e8ed1478eca6, 0x20c7a2c101e34270fc18b4f05d2b2f5a5a1298a2592dbf3f9b698e4a791d9311, 0x2d4886f200b99c57f4f09c0c362fd3535ae906a11cf011e261faf48734a3b07e, 0x2de6da1551b5f1d178de4dd889d03aeee464024fc2936097215c05ee14924f5c, 0xd90348bd745e5cd779a6a6b5c4b625e1b86559d71c55a13b4a92aba2187aa4, 0x141c3084044d2bcfe9594da6bf8175b950ab36b4433a7e61b815b6101a5bb703, 0x67c3241799e3c89402d1048ba30030283b507553a06ca6b37a3872000412e28, 0x148f39fd35a56bc7d20ba1c8922e4ad5c215660dad8d446b0f597edc42a1fe07, 0x1dd1fd608be4764ee1dce05067899de53fffc6b00fbe475a2e0222a63c68c54f, 0x15bb0f86dd0a37802b115a81d4e3f68f9a1d3fe589e5848bbbc5f5a5d77beef4, 0x2642fdf5df1faf7aa6a2f37b33a665f163a7df70c86adaad87dfab06493ec72b, 0x25c726bb20a1ba08c73808e00f829bd3fd95381e78c88bb1d3f347dc7dc543aa, 0x1ca5808c3d68b51afc586ed44f44189a4f4d0e56cb496cd10f5de368966b867b, 0x1cdaaea17a2d78385a56e99849637edd7e75d8556bfd8f241a11fd903af4fa87, 0x255b06d48523f97d2d30bdcae93ce9803256a0723ec161b987cef062877948af, 0x1cb3ff20f743a845c435fd3e2d10e9312f61da413743c4a79e67ab6c32dbafc6, 0x47a32238532a7a734ddabb15024b8a154455fc2481d31c3548d1e725488651e, 0x995b210131910f01df8976ae742e95e0a5ab490a4abeb30fce348e54dcc4e78, 0x1bf16ee530c9c94a408f2ffd49ace7dde635099bcfddc1ee41def1d86adadc98, 0x13107a5ea2a3406acdb6563a5e3f0809a1c6b7ea9a04928533266275fa6f521f, 0x2d562cc0650028df6e30c07bdbec07f73eebe766a192d130a6c737fc9ce3db39, 0x2efd12b5e4fa102fbd60bedc120b1dc022f8c43a2fce8642893698df53c23529, 0x110098c916b523211e18b985f8fcc7e8a804bcbc762bfeb6c25c810ced552162, 0x20a9d5216caac17db5ab45fcb6b45dfecd60a708291f5c86ab84da22ca596ad3, 0x48c825409094d056259dd3ca7e15a08594be82f488d66f91b43af660dcf38b6, 0x1984479ffca6b64a3b950372747c1b926ac36a7dd4f70e47e188bf7b410ded20, 0x209cec7ee37d47a8a56f8484b94f5db20535b552c11d5fdacc80305fd825c8f8, 0x2da9a692b08915b7b61930f011f76b09beb7edcfd6a19c48cde742e99cd49308, 0x302f50ece4afa17d552370a4e12c25a3b0151a43e3982ef5e71a38c74c36ef59, 0x1b46e081e756c42c783153f73a64054ff4985073b9a732153ab69c929470283e, 0x15103e3988d0baf626bf9de54d75b0301a2d3927c65d70b72391b062df7cb4f4, 0x1564e70062ed6c3b3ff272dea80ff3dc57ca1de688b1de481e7c0726376aeed2, 0x1e545f388b9e05a46dee5160c8706da80cf807c6c10260c85ce04ac3d41efc5e, 0x88cd407f0657fc8b6e8acf3ee2b0473e50e72bf58f54ea91eca40df80173dc6, 0x8b8e42fa1c4104467d67c7a3e384a3c0043e1c1d537d06beed997e0b52abcc5, 0x14f1b3f9e72031ba74e2e032804da7868d37bdec65c7b4c33133dce2b1990846, 0x1619c0ecca142ed142f88a2fe0b0381220b10d3ff5c20fb67a66badabeef018a, 0x10f620a862c7ec986c3ee7e92ee431caa4e8d3182bef22175d29542796c99925, 0x2f2f73f3953af6ecea86f5ef29075fc4e01bdc083c03fe6ef89842cb81f57936, 0x124ae93fdb1b32754036196428519c8350e699c10ae783b8efec04f6d0e4d40f, 0x23bba8fd9c1d888cc9f3268fc54eefdf5e18d60b41f5794117c800ea9564f579, 0x1da248f4d90e0056b683e2a892876fdd8efe474fb511f46955ad3145341e0d33, 0x2fd8234511e54966d00f3ea4a65dfcf0a6aa07d09323f994339b43bcd98ee670, 0x1cf83450d23c5fd64ea5ed6003ed6503737dfe249efbff2d05f6cc285b4adbbf, 0x730028703b63880fa47aa0b948a2a956590f9d2de022298c0350636586dd7b0, 0x2aee39a51669c14763094fb8c42d649064985ff1e175d8828f4e0252e908110d, 0x236a48fec7f4871e2a0fc6305b4ed35169b942f9e8029734dc9a5f450b0a40bc, 0x26917d74db7165800ebb0bb05afd8cdc79b470c1d54a5eb1dedad874a4a77acb, 0x217279c9d9ad568bfde19952276e8a757021985b2c6c1967dcd8c3a4198a38aa, 0x1f84a26602f83970a38afdfa335e740e24b8fb974dd9d8b0319c7cf6d3491e12, 0x1429fc9a53a6937f151562283326d9f9954a2ad824285e563b67d2838e5dc265, 0x253264e5b4725993807f799d6b066d3850232ecd10dbbc01e9a0d52f81bbb7a3, 0x1f193de050e1e6fc55939e38c86903ea03252b489120d0a74ee2aa203b587f23, 0xb179e9fcf3598400ce988278421f7a5eb6d5adc36917fa51649537396bdf99a, 0xdd3cfd2e74ac6443f1089c4c0884a890801c608c1a53b503eba6153819f9016, 0x11e4f43e73c18df506683d89a511b493fafbc4fee14c34a8343eb03d1c1978ce, 0x7e9613f5cf6551a97ecdcc24d8810e378c9b542bb59d79461a4c25493571eec, 0x8f250aabaf2b7bb58a09c6cd958e13c0b86c806c33e60f4cdf06789cd0241c3, 0x1076a7855f3b7d1ecd5bdc7c0860391c57ae1ead3508ea994c31530e29c5a242, 0x1b57606bfd71ab8e3b2ea9cd32a78569d00e8a836b8a2f94e165149005a2204b, 0x16a0fec8e2bd755596396f1d1cfb79210796b85bd3bded82bcc2b8e6d4a61c5f, 0x2fa939b78fd3589160bb09b35aedddeb43c10dd40c2ac6471598c4ad136889ac, 0x2fec4aa75563f7b8ce369ac2d239486a7e2e593c4cbf7474fc20e5154227d91e, 0xe1158e63c9b7df32d7c3f32a97e8e415343f54c62977e28f6be301418d8c3de, 0xe11893c32e63b42a74bed81dd71e6348a9bcb55bf5835335580be1eaab2fee4, 0xfc0701b9435b305b610c7fe0c667b33de7bbd330ca940d71d5ccdb7332452d0, 0xfee4aa70a97580a7395d67a37f55330b908470fb803fd004d434ae664765fc4, 0x146742f4531fa49c48480406498c6541600d2a303dd8dac971b7b920714ee131, 0x26f145dc528340cb9335cbb6fb1e70d0c871849e7475e7f9c0890b907f9f6bd7, 0xe307a3d20bd16381e2cb9d0b802046f3d33026535f1b2b7c03ab075b681cfb9, 0x37518e3a0fd47c9a1e33a918c30fe9fdce4dd04dc0e938162d2c3a541394e5c, 0x520c4f6bdc375ba8ef5e4f4d55ee73949386a813c60718db08ca3e8aae680b7, 0x1a5ee091b74dcc7c3962590d3042486bb4399107600c5f6664b145b7eb8c9a2f, 0x1986256424084fb797529cfab403b2cbf0b6626d4930abce17b1a64dae036314, 0x3867c71d3cfa8039ab6407ab46053ab4b7405276f483dc98319047b951a156e, 0x6d563050f5097774e456405b8c40d1f65b8a0a9de14e2b052039700bdba23fb, 0x10767e56882be4809328a58d747c6d3ff85de6513d50d09c2e337d22eb11c20b, 0x1017176674f93d48207e239674d99ee39b6cd893ebfb903a2a41f28ff0b56332, 0xee7e6ce359254247932f4e03d3113c2ea26e51a83313e4c1649cce22366b3cf, 0x26ff82c65be4374fccd75b3238534dfa544cb04228b8b17fde68bf54a791d63d, 0x7e88a6fce601c48d5cd2ec5945e24080fb840c5ac75084146d4ba1a6a6fd617, 0x129b8c69e8518bd16636ab0f1a3d7e39ada28a5de79ea5fba1b6a7d13550b85d, 0xd794f086bc4e45eea6337cd1e65391049d5c3d3fee8947032c40069aeeff68a, 0x2622b4fa8fb07226532b779e904eea44f6f909488cf516056bd81dafcfd60a07, 0x25630c8d104693e7a5fe41ae65db35fd3f4c63f8f51ef9d0948ea2595f158a26, 0x29023fc4f33c9028cdfa300500337f668de2a543847a619b6a6dcf7c64711b5a, 0x2c05672e9a763ea209baa0f7c31ec56ebabb34c45b24b7097c841bb3cbdab46d, 0x1f501c00c1ba8aaed173524be2f2b217d6b6ba00ac262ee58ff6220167ba201f, 0x19ba085b36795a55dbf040e54c356e70321b81fae29be0d71d777d49c4f4bb8d, 0x19b51d2fe788314270e14d1bc248c090da8605a40f7559216fb86482fe69022d, 0x135565fdd6d3e651191d7ed1ab010433782f9b07a41dbe14629bab713c229635, 0x22461ed7ba44596bf3a7402dcaed5c247b09835c534a81ab365148e148fd1327, 0xe09c39935650773975a411bc093718dac77e8d7877666a85ac3da15805cdf8a, 0x84ab85314402a0b68cd3021e1ae6790b27686c6b0ff2e4948aae4ee6cb5077e, 0x143b5de83814814bc1553bc7ec9bc4756bbddb9d31843a9dafbc2936fc8cbf69, 0x2a9b9ce26f0b8721be06da85ee1474727580b0237cdb08135baeee610a460522, 0xaab3ea72f43d0064b776a4746ea6e2b189b7e06fe8d49ebf452ca4627a387d7, 0x1656ffa30c037ac4573b8a0726888d99228ad832454abefca598c2318a3ec653, 0x14a2aa2a598b2e2370d14210dab5c5eb758b0c9178ceb7ff3fa681da5c9bcdd, 0x153c93de24e01c07ccd75236e4ec929b6efa0da96c687b5dc125f681850567eb, 0x141707bdc7698398e59f4ad04ec44fab8b7f4f7b20096f78020e948778a90f55, 0x21381259d9cd18a837dc34fb95017a3f32785bd91cc918589dae4212af7b979, 0x1d5d10c13222b1716d7a1def6b384d727948b0fdeb19e723b2bfa1292d97547f, 0x136ff9edb9c0568cd585b259aaa562ce3e24b30a6c4660acc0b5290d30a0da80, 0x2f3ab4418bb0cb7b859675b9ffce8c488f16cdd8cea44c14de0432e6e2881464, 0x2f03727d0894a74dc97e60cbfe74c7c7311b05d020ca878718dbf561db8bea39, 0x4ddf88beb916a6628e60a7da981781dfb0a5e1076285b24357f229128fe25ad, 0x818519ea2b71fbec6c6bfff87c978af4427e7bcc576dfa5c15bc4fc9fed263b, 0x1154d1aa344585c4ecf9ee9390c84668dce99231c0f427e8629ac905234e9eb5, 0x304298c6b5e2144ae9a508cd4c9f4c8160c37afa477b3829afd49d6a49fcb00, 0x13650a58dca9fdae806e76454c94a2198bed24df36d694a7a533147548ad0234, 0x7ccf19c8b8714b18d280a4c0ca0e8cc68e217516d1c54db6ff73582bf4d3263, 0x1b28476e34df146b4f9d530b6f59cd03abe281be29b3246a50feded647083d32, 0x1c58347a64fd5be62d478ca9d8fe383abeb3fa30d876bd5025ecf0701257b73f, 0x1cc9002d4119596aff974310da5bc62721915092504126a6ff3b684383f9eaae, 0x13d99de748b4fed4476bb2d6e9a4ec72b8b0488487d65822895a5267b35a5772, 0x21a780abb2efafce61f4d67da7b8bdfac494839e8c384f090605a94e7b396da8, 0xd9dc88bf3861f705b9aaf1f82df9d53870a0d3f8de4fd8b8c965cdaf6571886, 0x78f3af2d13ebf855e840a8c858a3f2f14316ae520ab12fe61381c0d2d4a0469, 0x62f5b577804a423ff3a473952caf7f052f22c8b438f00c32ac888d00c99713b, 0x25a8c33d7adb7ddd6a19dd8307a935d9148f2e962475f241ed67051bec38bc7b, 0x431652b03c94333a0ed76c36f1968d509ac73b8910df407b0343b9dd03fb56c, 0x22123ad39910862a3a25397329e3dc149b50289f9095e7224a81d5f2d39987c0, 0x2b43334743fc38c1bdcc7cc7d36ce441ab3be01674de449b15349a75cb937b3f, 0x2d0a0bc92e109c5fd70afbdb871bcec178a69fd1e244195e2ddaeaef5ca10dd0, 0x299db5f9e49f4aceb760a4aac36abc37af72e509ad6d21f6af1a267d2fefc6b3, 0xc813f6de081bf25808656d58811a88b8ebd5fda5b1365a54f793ac2bd4dc0f8, 0xe32673a68ba96aa959b25e655b9422d9871c6d5b615d14da978d104132fa938, 0x1a9e9dc3dec2e712da952fb4ce7f64e991cc590a0a3fcf2463dcef92b5edc389, 0x159ae72e80b1b65f43b5074ddc6642379e09c46769d7028b9d68e979abf59442, 0x2479b211ad9e81f8180fa2d44d0675f8de36046df216e254dda9c043b34d076b, 0x62f8b312f39bb2e5f11a786ea6bb051e5373763329dd904c5199ea19e3547dd, 0x22963c036561dcec8e1dcfed6ce50a7270acb2e415fb343cddcfccb77906da55, 0x4440fb323547f46c673d0de5a4fb198cfc8b94b64e0c776442fb1f189ad23b4, 0x2bd6e08f96c7801d3ec73c04ec706e3a56e10e90904c29a5a09654d56cc39f88, 0x531d0d6dca62ed2cb479cc2490208473ce78e2d63a2c1d6deb6a15f7eef493b, 0x1611c38d07cbce2b51577b64073338f50af6af8a7d4e99928942b6a687340edc, 0x148604fd234d2f542477c7a0c73a59fd9a19c5527e9feb4165e4f711d04d84af, 0xffb01eb4752741b05b51b6331c2b1a03bcafad4adbf57fb621f8ffe3eec8e02, 0x14af647ed36be4e16593f8a81335300459721d7dc9ebaeb1c9de2450bc7d2199, 0x11e2a2bf16b4b70d91546fe3e9741518f14e2b6ee75d59640fd62f0606d6c98, 0x1fc2fdde6c5ac257f4052f0120335407e533730d927809879de0d023726fe4f4, 0x49e892045b8d924d757eecef66602987c317ba55b7909b5fbaa4adf56a9a075, 0x18b84c59e8b5bdc9e4c55ae91457be4a66332b5869a9bf4928124e170eaa6c1, 0x263c7be5644463e12efe717157993fd58751cd755ad31a3a75b7f52420208b1d, 0xcb27cd239ea5d6f988acfb4b7de9a95b0eaab0ad0cec96c9bba0e6a2e459af7, 0x3634831e8b0e73bb4578749a7875f57643914df478aec0c457f62e8d1550027, 0x221ca9a31e8a11788017591eb067b1f87bc35b362e1047386378d85c24d26a4b, 0x8d5dccfd2d2164c0086fbdab916a75527156b82ab4536120ab6548dc99adefa, 0x1ea22f826469f0434f9dfe6749427fd15781564361adeea254850458ad482560, 0x16259979de9e13b79aaac6ab8a02ec0ef26b0b1690e682ecaa548867fd161a27, 0x25616133ee91e772b020d4c4c5953c05a8cea208b0162c82b57f9d07a5b6bcdd, 0x109451ff7ee8fbfd9563b8c2e7df834f72422cdd68f9372759c3a31b514d8704, 0x29e9eb61d0ce33c89954b0530ba55771f3b650a9ca00d0b52b6120da4bd97885, 0x176b236b779aa963de6e283bc06f4d40b2119fdf226bbcc4d56f9337ee940df8, 0x16a033d6c26609b062f9c369b06ebe1edac366e8534a33b62d0ec919855520c3, 0x27cd66a32dd969ba9fdb038201742c8062507ecad62e8947658f466f2acbbbc2, 0xf90038779e72e988033ffcb1fecab087f302ef61751a6a84946c997e634375d, 0x205f70b96d6e7fed7449ff0f70be698cb5b805c7573d7708e2c68e4bdde851fc, 0x1ba89c27c091cf85f997ba0e3dfbb84ba95d463d1a589826f993bf60d8670061, 0x182ea2d905630567136f83ae671ac63158db9efaae71b5bd3ee0a3de9a9f9eec, 0x6509a885fe116b967ad2cc9999d442106b2f0967bbfff02c849c5272a100481, 0x2283f7d31bc75e8ec3c8f1db4cd383c04c02dafe42a6cc83205c0c1653aa855, 0x17faf24d23b240bc3a43066d218db8a1d8928714641e72b41b74febff037d4ec, 0xa03a9fc7aa508da326142e62c7d4818f593dfc50e14b8b834ab893431a2a620, 0x71cdad090dd06cea45044f25a6adb52971594f3e161f62f4129e0b72a7a9407, 0x11f176589b8244f55560096a18423ec43451d6e99de165a29775f1e056bae3b4, 0x259f50c13a176f8513da7744fc31afecae0e9a4102a6bbf893178bee26a53d08, 0x268070c17f66e82a1219f144e97ac1a9f6f926d8d606bbe66c2bc7c051ea538a, 0x2feb1ea6480d6caaad0a25a3b660d0163b701931b7f73751d5e86a48f0aef56c, 0x267a8004c0a4a65b4ac33b8658b1b683579ed784647b378772b4b66cc4c189f9, 0x25d67a760f2a17a9435e5ba4d7486bce7a0010f771e909dc38cb40117e401308, 0x1e14c2d3209d43e73f72524efda3960e16c8d16dac6dfbae73c7e75189f20d11, 0x1c12410d09b3364340ac571b40bc1d74a9b42ab1001f9eb89cdc83a32656b448, 0x2797b79c67a48c4e5210e93402f7f739d1e4f443664e6981df1b4232a9916f55, 0x2f6fee780ac5a58cdafb653ff250ac96e02c6713fdc53ee530111131afd2dca3, 0x96d875d77642579ca91708c5bccef61acd69fc941ce2e126c3ac394ca5b1a3, 0x9c918b1f1284e123af4a4279598dae5c44e5c201475ab083daaa270e43599a0, 0x14c0b0619695bf075a237947bc425adf17c35be75d444e54288a3cdc85b8ed19, 0x26d8f29cc41aac3e0e39e354547c53b30627ec26e4fba33bd8d60979be27cb74, 0x9d9f04394b4b2f5ba5c2e4f83e4f0f63e4c1791ef011148cb2196901dec70cf, 0x1704c408583e92deb63655c36b90cba6a9a2c403261fa2201b4fe6ba10dcdcb0, 0x30702b64d0a76cb0c9e651eb579263718b35cfe62e136472e08616938ff0ec7, 0x19decf83dece35005309897a3eb81d5e25cbce4eb5e2fefec5cf68d90383297f, 0x38c625f54e4d2ec49c3811c37063a1d108c0d5376cf97944ca1074964f7ea95, 0xcd726d0859a55c8063056d8356ad29b410b1e1dd1ed0e282ae484d6b94c33ea, 0xe9a0db14a18282d439947ef7412fe1e6aeefcc96b4ac50e7f430d980b47fbd2, 0x1d3b00e67012591f3fe5bddc1eb36574de7a0357a1be28359c1518d07d5cf985, 0x9745ec5d24cf1837696f5a867c3c6129a0d44c037d96612e99b82eef3dbd87c, 0x2dd5e2ea41588db7b01cc611528850114adfc8513b37b17fb2a46f2b09bf6b1b, 0xb3dad731b91ed4c2aeeb10410c51a6e925360cbcab20c3ddecf83dbaa7e4c97, 0x49998b294f8aebbbf2fbbec695e4d2d56a9904ee051c84b0ee1fec9798cfb42],
    M = [0x2cb13179d6e8a4ad1b9fec37376253cf64386ad905e240575fca86539b272dc6, 0xfd547840f3a30a533a994d1fdb3f60ae5073f4484f34be951ee16a276fdeb9a, 0x5019671bda026670c7ffa9081795105963f56ce327fcf78451fba2bdb3ac1c6, 0x2952c18c15558f29b2ae77fc39e51a395f173a9097db404db765ab02906b27dc, 0x2353a60af6bd61e5eac2c9a4263d451fad07380654d4792378daf752e5cc33fa, 0xed6a3bd48174e370b4f264b37488b03a5e3f4c0f61cf32d3157ad3e3b86f6bd, 0x21103a7aa20c8d15501be8c23504c6a912c6100c5d88085cc2e42a52302f4483, 0x2fb232573e85d68c536d100c3a6ea9172884451e677b0d1cd0fb4dc4c27536b7, 0x302a085be040ff9a709ad0c73238b0d1e11e1d17409abaa34fc45de29b541535, 0x683e640e6154ef73c3cd6b1d0f0fd86ebf7e292e63fa84cf0a883c2f1faa8ba, 0x1f09f3fb07f7f6476fac98946b7375095e014b28f23a07ac9fc7077144ac3979, 0x598c38d2e2c78dfe4907c74e82325cb191d52608955b583e5826ebebd1857b5, 0x1f930557a284998225f5f4e4dfbcf5ac211f1b12d91b0562ed3d63285d7a714a, 0x4c4061820cda9bf472df3f64d6afa004f1e8623d0a4f6142cca1f19a4c275fb, 0xdbc22c3e54c924a882c22000951239cc263755dfcb38b27ef4f880e202cb5fa, 0x2fbb1c59e9e8999d91c40f4d44233122ab35ffc975edfb43c53ed07dbf0d9c76, 0xb8f40d2c4d28c472085203a0e460af73bbecec3b2b3a63f27028f2ca8a71251, 0x28c01a9f01601bb46417ed466be6008595052f782e46857d81229e64e6bda02, 0x23ce8e402939cccf36176a5bd83183a0d54a24ee6cabe4fc7f814dfbf26f85ea, 0xdb82abbcd3a1b56f7fc8d116cb54c54fe26243702bd3d57e71f7ce0d470a40f, 0x2e703ea9af99161acf9949da7afb18d462d85b671656d61c2cdee3a72390213f, 0x16512c150c1d2fb7235efd2d4f0fad5fdd78f8d0cde53a66bc90206c82c4b597, 0x298aa5d5a44565b75ef68df902d791d01d98a75e822ef553b1761c58d6fdf32, 0x203fd2078ab2a8f88b7606543145ee34daeab2aefca31bc04a476065697cabf8, 0x18e8222f6907da5745eeb9cd4a9e62f28b8b710aa85fe729f9ea73a3ef0099d, 0x107757eb0c0799f781308d83d2e057ef8106f6b656b45e7636181e113a2cdf32, 0x966a21b9615af2b7563dfe41b8b9fc06039512dc9c8e1196891eb77f856b608, 0x82046081498eee63c287c6fa3efcdefeba1b5272a77bba9cfddb56afa53c82d, 0x2c7ecbf14b2d6049a6439d0f29f10e26ec975acc3e3eddb77c831a509af59196, 0x144022e7e077ff22a2ce3dfe9923107d5aef046d0a1f2cb5f36191ab04eae4ed, 0x170403d414148f4681b8213550951e238edc009f46b00693ce3d9c5800fadd0a, 0x2997d92a5e9bc66c84f635e8cbf080eb720ecd4ca3e42c3ab8d088611880861a, 0x21427b3a9a2cdf1e2e6c628906b21e24271d72c18b0261be68cca44865dece11, 0x24bba58086a78541a8ebfd535c107c36946d78ba6cb26d227e615131f71d337d, 0x1fd5a6eba52e9ea1db389a1fc8dd3d0283d737c18eb06e090b6fd2dc88e0a14, 0x1276442d9383c52d50fc9b5ac34442a4ec8e9cd7aee6d6ceacc1a6f521aae4a4, 0x180e924d757d0be4066feb146ed56212e38acf9df4957432653f370f905b8b07, 0x2acd39e3892ac429ed812863efa05eda746b55bb974694a4e77b9a19abb55001, 0x17b18621dbd61df085da4cf8a03395e3700269c7df4d98ce4851f90abcbb3631, 0x2a429c2d06dcf34d34730c3af8bc19b04abd652468de5a85b5d5cbfd9c23e6e, 0x197dfb64189c09aaef94a1f542d8c34aea27fffba704202d5286d62bd0eed372, 0xfd3bdb79cad913432b7d3828e072dadc26cf4903d56b8976200723846c6577e, 0x29b9ffe05db2c52ddd1bf0e5c532eefe70497c7df4b97db2f0624836576a6b29, 0xa2a006e3b086bf502c5b1540eaaec14b9c15bf88471cb6d479fb4563f016497, 0x237a9e020908cd0edbd9eae8772350e0e731e3228b892fc5f64fdfa9b9daa670, 0x6d349d6182ec30d68c9be010587c707f7e1e175c0d324e6added6337a72c2b, 0xaabba39d220f30604d0c44dd47c3c70de3b79f5baa70a3a7a0ca02ae1b080c5, 0x16ee980a2c67de24fa1a34082f11c71b7c45966a6e8bc6aa1a1dbc7ef6a9bab2, 0x2f7d0715d1391190e7b14a1242b6799eac3142e21f08ca02c21755eae77a55bc, 0x29788bb6cd947ea9efaeefd0eeb7fd563fcc2e40bd623ea2b2442b55d98dc5a6, 0x12cc274647fc572bb79035bfc3332a4e566a28011f69dd0874f01c56bc44c3e2, 0x2ef584c3aaeedbbe2b4b103a61e94ed40a97294156ad7ddf0de43b845249f534, 0x5f9a6a8d64cca12725dd15110f74aecf99dd30e57a7d99829cd8757b75b772f, 0x2979d1aeafdf97988560d4ebbacfa6e2b7f3d026946abbb9d5397645e6e81825, 0x153891052fca1290fbf83240d334fd4ce05de78adfaa2c9686488e0c47ce1fc0, 0x1b8c7eb04d351aff4e76af7f9fa1114fe45aaedafdeb42c1c23503b122639c7b, 0x2d8125dbef602bd970d11fad7cfe06c3c64f5687b09b960ab92b14f69efbea57, 0x10924807f6fdc4e9e586792e3ace3001f16bc02e84ada5df51d7bd37243ee1ee, 0x230918919b6826faa7124c5bd15d10c036d565e100b696a3be7afaedb2abba6b, 0x1db922b8c249ff7bf96121eae9d9555ef7770f3dd7b056191ae9ab38a5ccf6ed, 0x2283ed8d5e6f9470b3f4f49a771061e4a4fc7dac683defcc0348a8862c6ce71, 0x6ab8672c936070a10757adb45031a5e2922f0fb8b5fab3a4f5e3872fb582ed3, 0x2c7d538b9e6d2b2e06e72f8aaab26dbddead1fef6a740a11e9953f8e8e9ee057, 0x28e4620d210536bcaa42ee46b1cdcb21bf215933bae4eec639efbd51f4bb6557, 0xfe0def70bfba40679aef8d5a239b3a1b5a52fe8fd7edb754aee2b182d64b66, 0x22ae023520979741e5c58fb04fd25d12dc8f5fcb6ad15223a5da7e0f91c7b4f5, 0x105c0b246660c4bd8a6f1b36fc3cff86a2c432c0dc9321cb50abb98a10cd1bae, 0x2a5aba3b45e79eb2606b2a5b47eb907584aecfbfc0b4cd50cda1ce4854338597, 0x23a3b23d5edf5cb66160fd2523b3a383142291c0e0ee666682e946b1d57937d6, 0x26635f4df7172107dad6b7c3068d2d438bfbf486471039f9e65a9c8462a2c9c2, 0x2bb28ef42f5fadab6a6ffd5655b36580deb063ae3081d587bb1598878590f1cc, 0x96dd43a832ab68e35e57c98d7b01f2a2e5936807704593ac72c74001383f7e2, 0x21f60efb132b62909990b9f994f381a9c02abc3ccb54c5c8e8c9c5664c6913d6, 0x1db98a562fcd1a5e4496e61264aad5ea3b455f46eabd8957ba671e9c31e5092b, 0x2f30800c0ee461010569d36b60685a38b02912a020bc4708598854f65822f15c, 0x1e32b1e2e6b59273a113d609663af6b30c95b36884fe5faf371de3d564213c3b, 0x1b1523463a45a2982889048681a422c02ea373f8b8c1bf16c74a375d5060c662, 0x5246ee7854b2e20e8612da021b30798e5f0d02a5bfd5e79d3f9ac6c79fa609b, 0x6cdf8055439ac8424c435e7e9bea3f0ae93eab171ac383ed2cedb460fcb04c4, 0x2f9a5cdb79645e3454c617d77a774feaf24ef603454c02076fc4c9d7548cc455, 0x1b1625d757786a19a93b37adf7f22ca8a502aa4462ca78f7da2d7c22b37d7f9, 0x28bf5488a525f5514400dce722430287fe8e4c810154056eb0f4d6fe61091cf5, 0x21891bee31fb7bd89f0e4422b3c8f5b393299af0d9825db9be73e7b20097923c, 0x2282e86ade85855d4ea0657c4add20625c6daa90bc93943b59a92dbb77b63681, 0x1cde82acee60b84424e9bcee49a5464ee05d1cf0b70469208a675635ac715495, 0x1c4dde07d0f94d1aaa832ac2f5712d438b4e1804b5209ce55942d7afb24c6401, 0x116c45e4d88ceae4565c0e94da844eaf2775d5f5b435d94d2d3d38b583fa7841, 0x18820364804d22119347b728135b409956f7933defa1059d634b977d9d3abcde, 0xc849d07b1d9e6ecbac517fc19237ff73424a0678f94699b23f76952afa4514c, 0x2b60a4d43d12cf31076e0690e931716c47a86e7728c34b2d3cb0cbcf95bbb74f, 0x3161d7b94e1b0411fc01dcfbd748a6df3156ff04536b3dd3101f7b2ebc3811b, 0x6438e8b0220464039a7b8022f06beaee502c5de269db82f91d88fe1b72834fa, 0x14898babc8810cbc626688531511a8473ed89a22569d47ba586c284e45bd0ae0, 0x90dfcc0327a541672cfc26c7e1370583c5f9214177093010fd3fbf279aafd4, 0x38e0c2e29c79ccf46b5ea1bc589276aec95b74e8bb82e4385c0585637c885f8, 0x28331d0d31ca8675ad4767c490261bbfe5b84adb4ca2c5599a87f331908130f4, 0x118a24510a2153f818f0a996c87de913587805f16cdb1939d9406941f958e8e1, 0x2cfc82712ed9d71ff4fdf63ee4ad116fac195794f8d910286c152efd9f959bee, 0x2ffccbc40031ebafecfc3a97284bd0f6dc4d45eceb8b8998f1a667bee369ed62, 0x9b6c00a37df2770cec0f1bf62a6aac3bd380c6ce9f4f96e0f0879237ffa510b, 0x2c4036616c156006337771c1e355fc0f2f238e64cbd69d068aabb4b58116886f, 0x41b909a658d136993b3f509a9e9d50138baca48f6b66399ac5c649e68dd3aa4, 0x25c075b41ea2d827a4955b6469db9d41760faf885f2c6e9c09407ebb1c4dc274, 0x115a91867233cc75d1c906a42930e93cb9c16afced390cc14435e5cfefb4e96e, 0x2f8fb37178b525758bf6aa527f25773e1ebcf8e1425379500c8245c741ba3fc4, 0x29a14dc4bac0a4c52bf30aaf6b9b8e05453d0d797246b64732d50f176a7ca257, 0x2c89dc7562b91d8f2f7daa209b7560520b6bc62ec631db41cc5edac1fb142be4, 0x14972bfc85de037b07e55332e6bc5b4f08f39ed4eb8a9721dffc4a586dd9a1df, 0x164567b0de16b7a5550fca229bac7cb0779524325e4ca5e78a86078881660264, 0x18b49b773f5799888e9abe3f6883d7063333835b6cdd333580b2b4bf48f3b27e, 0x2007424b129ade2194c73e6e2c9d79360d1360c4fbb8c5f31330f938558b3ace, 0x445e26e26f91707da2df5c188baf80ea2f48c703614980fa798971cd8ec60f5, 0x176804ec1cf85d35298351245d32236546838d9b98cf4242d601c7e8e501b49b, 0x25b6e65e90ffbf910d19fe3ae23d037f8f64da9fe3df483fc4f4977ca36a7b1c, 0x2fa2af7970e131f7efe3a7c788890ab860f76751e55b4ff634dd46cc4de660d8, 0xc8fd4ece5c205190cf6c842d1683444079bf49835d5c8b8dfbb11af956ccaf3, 0xe992f44463e2dfd267e6a4a1c3303ea7a1186252efd6c9fae9e5f0c1f6d8266, 0x2609ff97ef574fd68d16a3de0872c3b59a5b928258dd1469826a191dcbf5bd0, 0x15dc57879cb41d6015da9881f948b40d20f0e03fad87746d8575af009c96033d, 0x6d039b64e82d7975dd21a37b5ee79308f20e82e23489382ec2d176190587896, 0x188ff303194112a7034527cc9dd0b4deb0960c9c106ce115178dd7087e4e8c02, 0xb300de5b99c27d332091f8fb0d97cf04a86a51d4d2037788e0d4f38e8f4eab2, 0x2c53d6676d4d4c87d9eaf5d4da08d1e98d103a3388d59a7c0c3de51e2623aa3a, 0x19f5101715162976766e2b57a58674bc58e1ba2be18a59b07a07e4a93e038075, 0x2f5855a876a37f7bbbd6104accfcae507e9ddcd2a7219b487a76b17c525b50ca, 0x2c0de448a88dfeaacc9bcf2850b6ff4f701e1a538d69098bc94087cc35930966, 0xce587066eae0c345c3368c53dff2170cdb081bee52b243a1e6de6d4f82451d7, 0x2cea98cc64abd926df963da57f2ef4c434141cb53ac6311b2566edb957982713, 0x2c7ae475d90c475f73c0d29be8889d0c4b8536fee6c0389984bf9e4dbb1aae6d, 0x23238fda1417302dd03ce54607749610292945bddbd587241714fd3964af5f10, 0x1c674ff2ead27ce002f4befc7ad5f0f5123e59793c0fe21075e819ce56ce1e83, 0x2627be68d9cd0ccda3828d51621ba409f9acf09f1a9cc503a29ec306f8606ae7, 0x83d832adf9bb4a25f686abeda9f16ebf53263dcf9ef4311781d09920d094ead, 0x541af6b96524662084d1208d71b6b2a8d66d91179745b213679c2a2bbc94968, 0x2cf2c992c02a36334ff5dc851646ee7da04b44eb544ee3c0fadb8dc5eef2a585, 0x6c5df8fd61eca2fb4923f0a46dd4e416a3a3b48c10ded13133ffeab6fd153e3, 0x1a233c7cebfb0c6eb72dfd07aa2b537ccf291e84093aae36cc68002ffb83639b, 0x5f6d62f54518f039e79aa726bf15a5983583eca4062405400acca58ca9d2235, 0x2b09de93c6e3148cf7ff5731c8e144debb66ca896ecbe4089d2d22cbdb09777e, 0x239ecd92517825174f796345db296562223760fb1b81c091b74a6a4a82968a4, 0x2945cb85e34532e3a22fc576703797893ce290d0156430a8dce61c9df89a8bd5, 0xd3be6a5b12bcf1bc705c20c30f320b8881c6c2ec00e857685c0599262a3cf0, 0x11e7bc4a39d2730196b6c334f99750de5bb5e4fbca5d6a19eb7fe14abe845dbd, 0xc7c9db952865fb9470f8aa1402536cb3b82276d9e288082ac7f83b10bcb6d17]).* from "../poseidon"
}
