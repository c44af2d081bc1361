// generated: driver mids
static const char *const MIDS[6][3] = {
  {"efe73e70830b79554f716e3225e2025dbafbbc12", "8a99d728c1111be7d9987b957499c2704962a59e", "491c5cc46fcc38a353fc1dfb30ad86718f0e5bed", },
  {"3363e2d38dc779af21269de29552abeec7e1beb4e7c158652be38896ada1da1e", "58bc806cb5938e6e752704c9ec0dac8a088430fa1590b7783f616c854e49622d", "4fbc13381fd81b0e8699ae9db2e7caf1e79d8d6f45c3141e732ef348cd23bab4", },
  {"b281eb98bb07c9d13caed1a6c3ecb9fdba277417ae7ba605d432ad1b0d65a9e229eee118392b3e0ea6ecf1c7696ad91757c2bc313d951d9187f705dfc1885ae6", "5623b792c2b3d60efe781f3d794435614db052f9786c5902355675938b6256c8df664b274131f9303ede894e8f63a3d46791143370896202713ac27365a978c6", "4ad2c9ecd9e415bf3d67435457057ebe02e360d13d164be8eac83adcfab23d2d5717dee5ac782bacd6e241dd6905cd4d4aca00a1a9e94241794d2e09ffa08c5c", },
  {"230b9a85e7b970b9f7a4dc2567dd2070f49762bb", "7bec13e7f870607d932e58198060f6eae3585dd3", "c76f80a90a9f373976a6f59559a5e04fb50c73f2", },
  {"94987030522076ff828549d36d3880f7e68f28b05c29e06b8a1629fd80099cb8", "3e4d60d0b9d7b2c7349049f143b8b1f05d3e8976b47c5600653aa00bd87ba359", "c3e23b2227a8e6067a379d898fbe929d47d9f0b70f5c2faf3af212330201b618", },
  {"df47ecddae09705dc6ee0bd6f382879ae07b0216d5f199ddf0c86f753509d53fcb86b58912929b5cf1e5c7e19b7e21db51a701d0e6d59c332acbe3fdd32c8335", "4a98f79a2a3322c6a2bc48b42440f94c6a752c7fbd2ea9401acb2dc94ee43f44d55bab809e58a86ad7d08f180570b998047a3e1bce94e9b5c4960a3062954dd6", "87e9a94aa7f89d2110480aecfb78139be3b1e8e9e85159b78b2990b408c22725c8283446259e6810387e519ad06ced2e7c1422f54b0468bc7ba401b2c82da4bb", },
};
