// Written by tools/gen_fields.py.
use ark_ff::fields::{Fp, MontBackend, MontConfig};
use std::convert::TryInto;

#[derive(MontConfig)]
#[modulus = "131"]
#[generator = "2"]
pub struct C0;
pub type F0 = Fp<MontBackend<C0, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "137"]
#[generator = "3"]
pub struct C1;
pub type F1 = Fp<MontBackend<C1, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "139"]
#[generator = "2"]
pub struct C2;
pub type F2 = Fp<MontBackend<C2, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "151"]
#[generator = "3"]
pub struct C3;
pub type F3 = Fp<MontBackend<C3, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "181"]
#[generator = "2"]
pub struct C4;
pub type F4 = Fp<MontBackend<C4, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "199"]
#[generator = "3"]
pub struct C5;
pub type F5 = Fp<MontBackend<C5, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "211"]
#[generator = "2"]
pub struct C6;
pub type F6 = Fp<MontBackend<C6, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "241"]
#[generator = "7"]
pub struct C7;
pub type F7 = Fp<MontBackend<C7, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "251"]
#[generator = "2"]
pub struct C8;
pub type F8 = Fp<MontBackend<C8, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "257"]
#[generator = "3"]
pub struct C9;
pub type F9 = Fp<MontBackend<C9, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "331"]
#[generator = "2"]
pub struct C10;
pub type F10 = Fp<MontBackend<C10, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "421"]
#[generator = "2"]
pub struct C11;
pub type F11 = Fp<MontBackend<C11, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "463"]
#[generator = "3"]
pub struct C12;
pub type F12 = Fp<MontBackend<C12, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "631"]
#[generator = "3"]
pub struct C13;
pub type F13 = Fp<MontBackend<C13, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "65537"]
#[generator = "3"]
pub struct C14;
pub type F14 = Fp<MontBackend<C14, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "2147483647"]
#[generator = "3"]
pub struct C15;
pub type F15 = Fp<MontBackend<C15, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "2305843009213693951"]
#[generator = "3"]
pub struct C16;
pub type F16 = Fp<MontBackend<C16, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "18446744069414584321"]
#[generator = "7"]
pub struct C17;
pub type F17 = Fp<MontBackend<C17, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "18446744073709551629"]
#[generator = "2"]
pub struct C18;
pub type F18 = Fp<MontBackend<C18, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "170141183460469231731687303715884105727"]
#[generator = "3"]
pub struct C19;
pub type F19 = Fp<MontBackend<C19, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "57896044618658097711785492504343953926634992332820282019728792003956564819949"]
#[generator = "2"]
pub struct C20;
pub type F20 = Fp<MontBackend<C20, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "115792089237316195423570985008687907853269984665640564039457584007913129639747"]
#[generator = "2"]
pub struct C21;
pub type F21 = Fp<MontBackend<C21, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "57896044618658097711785492504343953926634992332820282019728792003956564820063"]
#[generator = "3"]
pub struct C22;
pub type F22 = Fp<MontBackend<C22, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "1361129467683753853853498429727072845819"]
#[generator = "2"]
pub struct C23;
pub type F23 = Fp<MontBackend<C23, 3>, 3>;
#[derive(MontConfig)]
#[modulus = "726838724295606890549323807888004534353641360687318060281490199180612328166730772686396383698676545930088884461843637361053498018365439"]
#[generator = "7"]
pub struct C24;
pub type F24 = Fp<MontBackend<C24, 7>, 7>;
#[derive(MontConfig)]
#[modulus = "6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151"]
#[generator = "3"]
pub struct C25;
pub type F25 = Fp<MontBackend<C25, 9>, 9>;
#[derive(MontConfig)]
#[modulus = "8444461749428370424248824938781546531375899335154063827935233455917409239041"]
#[generator = "11"]
pub struct C26;
pub type F26 = Fp<MontBackend<C26, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "52435875175126190479447740508185965837690552500527637822603658699938581184513"]
#[generator = "5"]
pub struct C27;
pub type F27 = Fp<MontBackend<C27, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "21888242871839275222246405745257275088548364400416034343698204186575808495617"]
#[generator = "5"]
pub struct C28;
pub type F28 = Fp<MontBackend<C28, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "21888242871839275222246405745257275088696311157297823662689037894645226208583"]
#[generator = "3"]
pub struct C29;
pub type F29 = Fp<MontBackend<C29, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177"]
#[generator = "5"]
pub struct C30;
pub type F30 = Fp<MontBackend<C30, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "28948022309329048855892746252171976963363056481941560715954676764349967630337"]
#[generator = "5"]
pub struct C31;
pub type F31 = Fp<MontBackend<C31, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "115792089237316195423570985008687907853269984665640564039457584007908834671663"]
#[generator = "3"]
pub struct C32;
pub type F32 = Fp<MontBackend<C32, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "239"]
#[generator = "7"]
pub struct C33;
pub type F33 = Fp<MontBackend<C33, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "15277901"]
#[generator = "2"]
pub struct C34;
pub type F34 = Fp<MontBackend<C34, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "106636360206797"]
#[generator = "2"]
pub struct C35;
pub type F35 = Fp<MontBackend<C35, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "1735461069271931"]
#[generator = "2"]
pub struct C36;
pub type F36 = Fp<MontBackend<C36, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "42384446456363063968942785617"]
#[generator = "3"]
pub struct C37;
pub type F37 = Fp<MontBackend<C37, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "137021378527348384200078271913888170301"]
#[generator = "2"]
pub struct C38;
pub type F38 = Fp<MontBackend<C38, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "180500087799519019800894451659812461508148373354847132524370608782795967817951"]
#[generator = "7"]
pub struct C39;
pub type F39 = Fp<MontBackend<C39, 5>, 5>;
#[derive(MontConfig)]
#[modulus = "157"]
#[generator = "2"]
pub struct C40;
pub type F40 = Fp<MontBackend<C40, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "3670074253"]
#[generator = "2"]
pub struct C41;
pub type F41 = Fp<MontBackend<C41, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "3210414639550150033"]
#[generator = "5"]
pub struct C42;
pub type F42 = Fp<MontBackend<C42, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "7829892309302305243"]
#[generator = "2"]
pub struct C43;
pub type F43 = Fp<MontBackend<C43, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "33030756807140828737"]
#[generator = "5"]
pub struct C44;
pub type F44 = Fp<MontBackend<C44, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "65545883336734073246146621339"]
#[generator = "2"]
pub struct C45;
pub type F45 = Fp<MontBackend<C45, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "152512554549197549520823304153973082773289213"]
#[generator = "2"]
pub struct C46;
pub type F46 = Fp<MontBackend<C46, 3>, 3>;
#[derive(MontConfig)]
#[modulus = "1729211902481337091736564279374078299723858181692740549067210607122146012557"]
#[generator = "2"]
pub struct C47;
pub type F47 = Fp<MontBackend<C47, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "35592379994324946656539229452165174389094266000075086807059536228380712167989"]
#[generator = "2"]
pub struct C48;
pub type F48 = Fp<MontBackend<C48, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "37510571703715916291988901615212823675077876288203031018874486063867968788480748834047025298704485584197295011179377"]
#[generator = "5"]
pub struct C49;
pub type F49 = Fp<MontBackend<C49, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "1713264267491041"]
#[generator = "7"]
pub struct C50;
pub type F50 = Fp<MontBackend<C50, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "5155959115865886781"]
#[generator = "2"]
pub struct C51;
pub type F51 = Fp<MontBackend<C51, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "34265615137990622101"]
#[generator = "2"]
pub struct C52;
pub type F52 = Fp<MontBackend<C52, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "73778835074670420752434312981"]
#[generator = "2"]
pub struct C53;
pub type F53 = Fp<MontBackend<C53, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "88166074584537512825660708580674730301"]
#[generator = "2"]
pub struct C54;
pub type F54 = Fp<MontBackend<C54, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "275913258634334634881820642964958412601"]
#[generator = "7"]
pub struct C55;
pub type F55 = Fp<MontBackend<C55, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "438682662909643450428962969968407556321"]
#[generator = "7"]
pub struct C56;
pub type F56 = Fp<MontBackend<C56, 3>, 3>;
#[derive(MontConfig)]
#[modulus = "150452527407071274916376945617700745927685201"]
#[generator = "7"]
pub struct C57;
pub type F57 = Fp<MontBackend<C57, 3>, 3>;
#[derive(MontConfig)]
#[modulus = "1386182153011377731105501338249322021785560079206375739741941779325943108051"]
#[generator = "2"]
pub struct C58;
pub type F58 = Fp<MontBackend<C58, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "172473224293329444882142774489278320461346102350223335884968674692982702810861"]
#[generator = "2"]
pub struct C59;
pub type F59 = Fp<MontBackend<C59, 5>, 5>;
#[derive(MontConfig)]
#[modulus = "34230973984481594841677895882233333172906990817853265725887966994417321445730436779518358732144129821435921353028901"]
#[generator = "2"]
pub struct C60;
pub type F60 = Fp<MontBackend<C60, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "2521"]
#[generator = "11"]
pub struct C61;
pub type F61 = Fp<MontBackend<C61, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "100345322567491"]
#[generator = "2"]
pub struct C62;
pub type F62 = Fp<MontBackend<C62, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "1960908213651661"]
#[generator = "2"]
pub struct C63;
pub type F63 = Fp<MontBackend<C63, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "36721963998359536051"]
#[generator = "2"]
pub struct C64;
pub type F64 = Fp<MontBackend<C64, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "296613992211317548200698827816499640781"]
#[generator = "2"]
pub struct C65;
pub type F65 = Fp<MontBackend<C65, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "346748261440304697561713209478204204941"]
#[generator = "2"]
pub struct C66;
pub type F66 = Fp<MontBackend<C66, 3>, 3>;
#[derive(MontConfig)]
#[modulus = "33055414539082456932931312045311145873235286503640292020969761114551311101491"]
#[generator = "2"]
pub struct C67;
pub type F67 = Fp<MontBackend<C67, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "31547725229619008992453691286885704628788319480257979225602554416937204352244053361718919755576500074671216439701621"]
#[generator = "2"]
pub struct C68;
pub type F68 = Fp<MontBackend<C68, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "719577723982133738816785663269032242602647950248508515875787831997829186502413533940979540549182600611725446728823622889190184935218021442291403091682649201313644257455128518051096189012391326202933162534516353546912542077375568531"]
#[generator = "2"]
pub struct C69;
pub type F69 = Fp<MontBackend<C69, 12>, 12>;
#[derive(MontConfig)]
#[modulus = "2114571691"]
#[generator = "2"]
pub struct C70;
pub type F70 = Fp<MontBackend<C70, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "3124696051"]
#[generator = "2"]
pub struct C71;
pub type F71 = Fp<MontBackend<C71, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "1822186306957171"]
#[generator = "2"]
pub struct C72;
pub type F72 = Fp<MontBackend<C72, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "4543808688412039201"]
#[generator = "23"]
pub struct C73;
pub type F73 = Fp<MontBackend<C73, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "9167681378600222941"]
#[generator = "2"]
pub struct C74;
pub type F74 = Fp<MontBackend<C74, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "16619431715466755281"]
#[generator = "11"]
pub struct C75;
pub type F75 = Fp<MontBackend<C75, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "23536151908433529751"]
#[generator = "3"]
pub struct C76;
pub type F76 = Fp<MontBackend<C76, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "392949625907584337585443224391"]
#[generator = "3"]
pub struct C77;
pub type F77 = Fp<MontBackend<C77, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "403785168248677727186281502824289166961"]
#[generator = "19"]
pub struct C78;
pub type F78 = Fp<MontBackend<C78, 3>, 3>;
#[derive(MontConfig)]
#[modulus = "111925482684746662382464528303443242794510501"]
#[generator = "2"]
pub struct C79;
pub type F79 = Fp<MontBackend<C79, 3>, 3>;
#[derive(MontConfig)]
#[modulus = "53813649148457600285347626093888569046330941767566319384473880564234991412331"]
#[generator = "2"]
pub struct C80;
pub type F80 = Fp<MontBackend<C80, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "65349610853551928251152268783539847303086622822999006847920069403416877610511"]
#[generator = "3"]
pub struct C81;
pub type F81 = Fp<MontBackend<C81, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "36835814061848671158470597044226360305682639749694400351383799425251840376091019704268406216898467055353559942004321"]
#[generator = "11"]
pub struct C82;
pub type F82 = Fp<MontBackend<C82, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "6226435059311946571"]
#[generator = "2"]
pub struct C83;
pub type F83 = Fp<MontBackend<C83, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "17212419730536521401"]
#[generator = "37"]
pub struct C84;
pub type F84 = Fp<MontBackend<C84, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "27222912926964496561"]
#[generator = "11"]
pub struct C85;
pub type F85 = Fp<MontBackend<C85, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "155611327566829075751961660208365297451"]
#[generator = "2"]
pub struct C86;
pub type F86 = Fp<MontBackend<C86, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "337408959079630950652744409514040154551"]
#[generator = "3"]
pub struct C87;
pub type F87 = Fp<MontBackend<C87, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "5136031935130502017495769414111683876957457780392207530121"]
#[generator = "31"]
pub struct C88;
pub type F88 = Fp<MontBackend<C88, 3>, 3>;
#[derive(MontConfig)]
#[modulus = "12254094068037385212970522128330853866443685416795903715811817362636395541"]
#[generator = "2"]
pub struct C89;
pub type F89 = Fp<MontBackend<C89, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "73393157460898535263488392240634664788304346664254753756707601304242770722391"]
#[generator = "3"]
pub struct C90;
pub type F90 = Fp<MontBackend<C90, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "4564448031613013014755176264235583847138334274567967720016837249448169965777218990044258580728076087382941021851581"]
#[generator = "2"]
pub struct C91;
pub type F91 = Fp<MontBackend<C91, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "22056311398933988610690884720980817557018647184581834734725791451201020114723676765720486265586058338080912932069231"]
#[generator = "3"]
pub struct C92;
pub type F92 = Fp<MontBackend<C92, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "124237767714061"]
#[generator = "2"]
pub struct C93;
pub type F93 = Fp<MontBackend<C93, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "3376490054991012961"]
#[generator = "23"]
pub struct C94;
pub type F94 = Fp<MontBackend<C94, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "490155099790250546309004997651"]
#[generator = "2"]
pub struct C95;
pub type F95 = Fp<MontBackend<C95, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "1654890384662552219049708267973903120105641468183950024908540103195867393341"]
#[generator = "2"]
pub struct C96;
pub type F96 = Fp<MontBackend<C96, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "16880633695897022764034094844779259378554553258649476738971047517992533453951"]
#[generator = "3"]
pub struct C97;
pub type F97 = Fp<MontBackend<C97, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "677106091635846776721366036354408825773053580872556325553452044013187094686651797967534117689379307975511716258384569112525999766485990162491339956739613931108476001560735982734896430439761600991316752649303312250301576135971080801"]
#[generator = "23"]
pub struct C98;
pub type F98 = Fp<MontBackend<C98, 12>, 12>;
#[derive(MontConfig)]
#[modulus = "116668976063641"]
#[generator = "19"]
pub struct C99;
pub type F99 = Fp<MontBackend<C99, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "7807687296316007101"]
#[generator = "2"]
pub struct C100;
pub type F100 = Fp<MontBackend<C100, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "10478587651976644201"]
#[generator = "19"]
pub struct C101;
pub type F101 = Fp<MontBackend<C101, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "349697337241299912806492651101"]
#[generator = "2"]
pub struct C102;
pub type F102 = Fp<MontBackend<C102, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "326390745882371852906200522222197450931"]
#[generator = "2"]
pub struct C103;
pub type F103 = Fp<MontBackend<C103, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "93368033167555849141633811184686153572787251"]
#[generator = "2"]
pub struct C104;
pub type F104 = Fp<MontBackend<C104, 3>, 3>;
#[derive(MontConfig)]
#[modulus = "228306328787476099560971726657821828702494267825219853352405768720120948313991"]
#[generator = "3"]
pub struct C105;
pub type F105 = Fp<MontBackend<C105, 5>, 5>;
#[derive(MontConfig)]
#[modulus = "34671813671709254589570025909131024942754232841620172449631771989547232101912851048027898585371759149128666800051701"]
#[generator = "2"]
pub struct C106;
pub type F106 = Fp<MontBackend<C106, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "569556810157227188017484361446488684795407545949701908036942403677609078119127514691568044943486871506617822241456858221532702376715303100352965389624536416352021706208219938077463445693140806156817919710948248601443669282630112451"]
#[generator = "2"]
pub struct C107;
pub type F107 = Fp<MontBackend<C107, 12>, 12>;
#[derive(MontConfig)]
#[modulus = "10515188619717531751"]
#[generator = "3"]
pub struct C108;
pub type F108 = Fp<MontBackend<C108, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "68546234026961369777471793421"]
#[generator = "2"]
pub struct C109;
pub type F109 = Fp<MontBackend<C109, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "434111199718389990207243853021"]
#[generator = "2"]
pub struct C110;
pub type F110 = Fp<MontBackend<C110, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "262143408740583880518411994809117569671"]
#[generator = "3"]
pub struct C111;
pub type F111 = Fp<MontBackend<C111, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "106408735064694437432565224392687043481198751"]
#[generator = "3"]
pub struct C112;
pub type F112 = Fp<MontBackend<C112, 3>, 3>;
#[derive(MontConfig)]
#[modulus = "44831182433292918113804207223270752020401753793421759538438627824112324857941"]
#[generator = "2"]
pub struct C113;
pub type F113 = Fp<MontBackend<C113, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "196478569255674062787228610806629432561011846975069492853526086526276413949901"]
#[generator = "2"]
pub struct C114;
pub type F114 = Fp<MontBackend<C114, 5>, 5>;
#[derive(MontConfig)]
#[modulus = "4353054853957169648919574560177357639058314761258267533157830609990146555537076013199880672653070908091587583538101"]
#[generator = "2"]
pub struct C115;
pub type F115 = Fp<MontBackend<C115, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "9221139967749865403674911450278465884712204512744491146611484837605897766756087955667127319710263954596195551615621716998794660541621115220409448764978001"]
#[generator = "29"]
pub struct C116;
pub type F116 = Fp<MontBackend<C116, 8>, 8>;
#[derive(MontConfig)]
#[modulus = "594203485263923298366509079939369283127577245449488625446562425788290375660020442644512417289133639073036838602734889613434746311622614239645202225998140330667429285357996929137715288613031753602824352399850272783034771951326448841"]
#[generator = "43"]
pub struct C117;
pub type F117 = Fp<MontBackend<C117, 12>, 12>;
#[derive(MontConfig)]
#[modulus = "2068594726958761"]
#[generator = "29"]
pub struct C118;
pub type F118 = Fp<MontBackend<C118, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "378960338332162909234586314813099827901"]
#[generator = "2"]
pub struct C119;
pub type F119 = Fp<MontBackend<C119, 3>, 3>;
#[derive(MontConfig)]
#[modulus = "28602972277502339739018928742715055425983640270570449445455947665838787245351"]
#[generator = "3"]
pub struct C120;
pub type F120 = Fp<MontBackend<C120, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "178685113187570627956432855641765965663848958139939209102946395011717293894121"]
#[generator = "47"]
pub struct C121;
pub type F121 = Fp<MontBackend<C121, 5>, 5>;
#[derive(MontConfig)]
#[modulus = "2883636594174640108370292944140985059097771361650487122424876138005149640383322703705601371636589477139559551784061"]
#[generator = "2"]
pub struct C122;
pub type F122 = Fp<MontBackend<C122, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "27025974013662600844549596433434700513950980771766739659764148190936176575048111962090179108383536749940705065297271"]
#[generator = "3"]
pub struct C123;
pub type F123 = Fp<MontBackend<C123, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "8696105725690855023471605113457767653117991740824561545154553885179744125819982755950833655973129594335353939761109443701635802157682386654794738009996091"]
#[generator = "2"]
pub struct C124;
pub type F124 = Fp<MontBackend<C124, 8>, 8>;
#[derive(MontConfig)]
#[modulus = "3043775633082764581"]
#[generator = "2"]
pub struct C125;
pub type F125 = Fp<MontBackend<C125, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "42753539345880725161351952401"]
#[generator = "37"]
pub struct C126;
pub type F126 = Fp<MontBackend<C126, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "456039073371202458179364872551"]
#[generator = "3"]
pub struct C127;
pub type F127 = Fp<MontBackend<C127, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "93720636127445820744342284955014673421"]
#[generator = "2"]
pub struct C128;
pub type F128 = Fp<MontBackend<C128, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "24397843601149107701059351621192656072125681307615092731777097123724265491541"]
#[generator = "2"]
pub struct C129;
pub type F129 = Fp<MontBackend<C129, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "49900417074810690963248261801179828425551686888068442860092537452145583398251"]
#[generator = "2"]
pub struct C130;
pub type F130 = Fp<MontBackend<C130, 4>, 4>;
#[derive(MontConfig)]
#[modulus = "2636143606706843760208044968188554744443880292882679567260497998044923249360749029796401897798949093844578625056161"]
#[generator = "31"]
pub struct C131;
pub type F131 = Fp<MontBackend<C131, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "20021433122708498519649445357667041699306030542023272052942664227477773887146662725663022681363491288301006006826701"]
#[generator = "2"]
pub struct C132;
pub type F132 = Fp<MontBackend<C132, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "2610920421355856611"]
#[generator = "2"]
pub struct C133;
pub type F133 = Fp<MontBackend<C133, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "31502445237543259981"]
#[generator = "2"]
pub struct C134;
pub type F134 = Fp<MontBackend<C134, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "71385947099586525014924935621"]
#[generator = "2"]
pub struct C135;
pub type F135 = Fp<MontBackend<C135, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "591462161886085662513038647951"]
#[generator = "3"]
pub struct C136;
pub type F136 = Fp<MontBackend<C136, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "38302795121590737299613960459965224983574836473146436397203501259194825024586284751885377033158967650663770041472391"]
#[generator = "3"]
pub struct C137;
pub type F137 = Fp<MontBackend<C137, 6>, 6>;
#[derive(MontConfig)]
#[modulus = "2785725904243532251"]
#[generator = "2"]
pub struct C138;
pub type F138 = Fp<MontBackend<C138, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "68189136471419586480339562081"]
#[generator = "29"]
pub struct C139;
pub type F139 = Fp<MontBackend<C139, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "620839012357440500074372574274544322401"]
#[generator = "29"]
pub struct C140;
pub type F140 = Fp<MontBackend<C140, 3>, 3>;
#[derive(MontConfig)]
#[modulus = "177916163722106613903025436694452601040537831"]
#[generator = "3"]
pub struct C141;
pub type F141 = Fp<MontBackend<C141, 3>, 3>;
#[derive(MontConfig)]
#[modulus = "9219203411406954024831233436794759581764431214325099037394064157468403879595265008796204274550815482449190048684904549889877591710031218627747331921180281"]
#[generator = "79"]
pub struct C142;
pub type F142 = Fp<MontBackend<C142, 8>, 8>;
#[derive(MontConfig)]
#[modulus = "13462161410288460871"]
#[generator = "3"]
pub struct C143;
pub type F143 = Fp<MontBackend<C143, 1>, 1>;
#[derive(MontConfig)]
#[modulus = "25040405188816437421"]
#[generator = "2"]
pub struct C144;
pub type F144 = Fp<MontBackend<C144, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "384659056189087007146964325181"]
#[generator = "2"]
pub struct C145;
pub type F145 = Fp<MontBackend<C145, 2>, 2>;
#[derive(MontConfig)]
#[modulus = "5604280541808048795607667201590964324894176627071360279151"]
#[generator = "3"]
pub struct C146;
pub type F146 = Fp<MontBackend<C146, 3>, 3>;
#[derive(MontConfig)]
#[modulus = "108561531903286960611892268243488826120849535111148481057902966037640379123741"]
#[generator = "2"]
pub struct C147;
pub type F147 = Fp<MontBackend<C147, 4>, 4>;

/// The BLS12-377 scalar field.
pub type BLS377 = F26;

/// Calls `$m!(field type)` for the field of the given index.
macro_rules! with_field {
    ($i:expr, $m:ident) => {
        match $i {
            0 => $m!(crate::fields::F0),
            1 => $m!(crate::fields::F1),
            2 => $m!(crate::fields::F2),
            3 => $m!(crate::fields::F3),
            4 => $m!(crate::fields::F4),
            5 => $m!(crate::fields::F5),
            6 => $m!(crate::fields::F6),
            7 => $m!(crate::fields::F7),
            8 => $m!(crate::fields::F8),
            9 => $m!(crate::fields::F9),
            10 => $m!(crate::fields::F10),
            11 => $m!(crate::fields::F11),
            12 => $m!(crate::fields::F12),
            13 => $m!(crate::fields::F13),
            14 => $m!(crate::fields::F14),
            15 => $m!(crate::fields::F15),
            16 => $m!(crate::fields::F16),
            17 => $m!(crate::fields::F17),
            18 => $m!(crate::fields::F18),
            19 => $m!(crate::fields::F19),
            20 => $m!(crate::fields::F20),
            21 => $m!(crate::fields::F21),
            22 => $m!(crate::fields::F22),
            23 => $m!(crate::fields::F23),
            24 => $m!(crate::fields::F24),
            25 => $m!(crate::fields::F25),
            26 => $m!(crate::fields::F26),
            27 => $m!(crate::fields::F27),
            28 => $m!(crate::fields::F28),
            29 => $m!(crate::fields::F29),
            30 => $m!(crate::fields::F30),
            31 => $m!(crate::fields::F31),
            32 => $m!(crate::fields::F32),
            33 => $m!(crate::fields::F33),
            34 => $m!(crate::fields::F34),
            35 => $m!(crate::fields::F35),
            36 => $m!(crate::fields::F36),
            37 => $m!(crate::fields::F37),
            38 => $m!(crate::fields::F38),
            39 => $m!(crate::fields::F39),
            40 => $m!(crate::fields::F40),
            41 => $m!(crate::fields::F41),
            42 => $m!(crate::fields::F42),
            43 => $m!(crate::fields::F43),
            44 => $m!(crate::fields::F44),
            45 => $m!(crate::fields::F45),
            46 => $m!(crate::fields::F46),
            47 => $m!(crate::fields::F47),
            48 => $m!(crate::fields::F48),
            49 => $m!(crate::fields::F49),
            50 => $m!(crate::fields::F50),
            51 => $m!(crate::fields::F51),
            52 => $m!(crate::fields::F52),
            53 => $m!(crate::fields::F53),
            54 => $m!(crate::fields::F54),
            55 => $m!(crate::fields::F55),
            56 => $m!(crate::fields::F56),
            57 => $m!(crate::fields::F57),
            58 => $m!(crate::fields::F58),
            59 => $m!(crate::fields::F59),
            60 => $m!(crate::fields::F60),
            61 => $m!(crate::fields::F61),
            62 => $m!(crate::fields::F62),
            63 => $m!(crate::fields::F63),
            64 => $m!(crate::fields::F64),
            65 => $m!(crate::fields::F65),
            66 => $m!(crate::fields::F66),
            67 => $m!(crate::fields::F67),
            68 => $m!(crate::fields::F68),
            69 => $m!(crate::fields::F69),
            70 => $m!(crate::fields::F70),
            71 => $m!(crate::fields::F71),
            72 => $m!(crate::fields::F72),
            73 => $m!(crate::fields::F73),
            74 => $m!(crate::fields::F74),
            75 => $m!(crate::fields::F75),
            76 => $m!(crate::fields::F76),
            77 => $m!(crate::fields::F77),
            78 => $m!(crate::fields::F78),
            79 => $m!(crate::fields::F79),
            80 => $m!(crate::fields::F80),
            81 => $m!(crate::fields::F81),
            82 => $m!(crate::fields::F82),
            83 => $m!(crate::fields::F83),
            84 => $m!(crate::fields::F84),
            85 => $m!(crate::fields::F85),
            86 => $m!(crate::fields::F86),
            87 => $m!(crate::fields::F87),
            88 => $m!(crate::fields::F88),
            89 => $m!(crate::fields::F89),
            90 => $m!(crate::fields::F90),
            91 => $m!(crate::fields::F91),
            92 => $m!(crate::fields::F92),
            93 => $m!(crate::fields::F93),
            94 => $m!(crate::fields::F94),
            95 => $m!(crate::fields::F95),
            96 => $m!(crate::fields::F96),
            97 => $m!(crate::fields::F97),
            98 => $m!(crate::fields::F98),
            99 => $m!(crate::fields::F99),
            100 => $m!(crate::fields::F100),
            101 => $m!(crate::fields::F101),
            102 => $m!(crate::fields::F102),
            103 => $m!(crate::fields::F103),
            104 => $m!(crate::fields::F104),
            105 => $m!(crate::fields::F105),
            106 => $m!(crate::fields::F106),
            107 => $m!(crate::fields::F107),
            108 => $m!(crate::fields::F108),
            109 => $m!(crate::fields::F109),
            110 => $m!(crate::fields::F110),
            111 => $m!(crate::fields::F111),
            112 => $m!(crate::fields::F112),
            113 => $m!(crate::fields::F113),
            114 => $m!(crate::fields::F114),
            115 => $m!(crate::fields::F115),
            116 => $m!(crate::fields::F116),
            117 => $m!(crate::fields::F117),
            118 => $m!(crate::fields::F118),
            119 => $m!(crate::fields::F119),
            120 => $m!(crate::fields::F120),
            121 => $m!(crate::fields::F121),
            122 => $m!(crate::fields::F122),
            123 => $m!(crate::fields::F123),
            124 => $m!(crate::fields::F124),
            125 => $m!(crate::fields::F125),
            126 => $m!(crate::fields::F126),
            127 => $m!(crate::fields::F127),
            128 => $m!(crate::fields::F128),
            129 => $m!(crate::fields::F129),
            130 => $m!(crate::fields::F130),
            131 => $m!(crate::fields::F131),
            132 => $m!(crate::fields::F132),
            133 => $m!(crate::fields::F133),
            134 => $m!(crate::fields::F134),
            135 => $m!(crate::fields::F135),
            136 => $m!(crate::fields::F136),
            137 => $m!(crate::fields::F137),
            138 => $m!(crate::fields::F138),
            139 => $m!(crate::fields::F139),
            140 => $m!(crate::fields::F140),
            141 => $m!(crate::fields::F141),
            142 => $m!(crate::fields::F142),
            143 => $m!(crate::fields::F143),
            144 => $m!(crate::fields::F144),
            145 => $m!(crate::fields::F145),
            146 => $m!(crate::fields::F146),
            147 => $m!(crate::fields::F147),
            _ => unreachable!(),
        }
    };
}
pub(crate) use with_field;
pub const FIELDS: usize = 148;
