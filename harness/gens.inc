// Published generators (affine coordinates) and curve coefficients.
#if CRV == 1
static const char *const G1_X[] = {"1"};
static const char *const G1_Y[] = {"2"};
static const char *const G2_X[] = {"10857046999023057135944570762232829481370756359578518086990519993285655852781", "11559732032986387107991004021392285783925812861821192530917403151452391805634"};
static const char *const G2_Y[] = {"8495653923123431417604973247489272438418190587263600148770280649306958101930", "4082367875863433681332203403145435568316851327593401208105741076214120093531"};
#elif CRV == 2
static const char *const G1_X[] = {"3685416753713387016781088315183077757961620795782546409894578378688607592378376318836054947676345821548104185464507"};
static const char *const G1_Y[] = {"1339506544944476473020471379941921221584933875938349620426543736416511423956333506472724655353366534992391756441569"};
static const char *const G2_X[] = {"352701069587466618187139116011060144890029952792775240219908644239793785735715026873347600343865175952761926303160", "3059144344244213709971259814753781636986470325476647558659373206291635324768958432433509563104347017837885763365758"};
static const char *const G2_Y[] = {"1985150602287291935568054521177171638300868978215655730859378665066344726373823718423869104263333984641494340347905", "927553665492332455747201965776037880757740193453592970025027978793976877002675564980949289727957565575433344219582"};
#elif CRV == 3
static const char *const G1_X[] = {"3713709671941291996998665608188072510389821008693530490"};
static const char *const G1_Y[] = {"4869953702976555123067178261685365085639705297852816679"};
static const char *const G2_X[] = {"4531683359223370252210990718516622098304721701253228128", "5339624155305731263217400504407647531329993548123477368", "3964037981777308726208525982198654699800283729988686552"};
static const char *const G2_Y[] = {"364634864866983740775341816274081071386963546650700569", "3264380230116139014996291397901297105159834497864380415", "3504781284999684163274269077749440837914479176282903747"};
#elif CRV == 4
static const char *const G1_X[] = {"60760244141852568949126569781626075788424196370144486719385562369396875346601926534016838"};
static const char *const G1_Y[] = {"363732850702582978263902770815145784459747722357071843971107674179038674942891694705904306"};
static const char *const G2_X[] = {"438374926219350099854919100077809681842783509163790991847867546339851681564223481322252708", "37620953615500480110935514360923278605464476459712393277679280819942849043649216370485641"};
static const char *const G2_Y[] = {"37437409008528968268352521034936931842973546441370663118543015118291998305624025037512482", "424621479598893882672393190337420680597584695892317197646113820787463109735345923009077489"};
#elif CRV == 5
static const char *const G1_X[] = {"336685752883082228109289846353937104185698209371404178342968838739115829740084426881123453"};
static const char *const G1_Y[] = {"402596290139780989709332707716568920777622032073762749862342374583908837063963736098549800"};
static const char *const G2_X[] = {"421456435772811846256826561593908322288509115489119907560382401870203318738334702321297427", "103072927438548502463527009961344915021167584706439945404959058962657261178393635706405114", "143029172143731852627002926324735183809768363301149009204849580478324784395590388826052558"};
static const char *const G2_Y[] = {"464673596668689463130099227575639512541218133445388869383893594087634649237515554342751377", "100642907501977375184575075967118071807821117960152743335603284583254620685343989304941678", "123019855502969896026940545715841181300275180157288044663051565390506010149881373807142903"};
#endif
