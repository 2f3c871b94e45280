// generated by tools/gen_enums.py
PRINTABLE_ENUM(e0, A)
PRINTABLE_ENUM(e1, A)
PRINTABLE_ENUM(e2, 
               A)
PRINTABLE_ENUM(e3,   A  )
PRINTABLE_ENUM(e4, 
	A,
)
PRINTABLE_ENUM(e5, 
  A
)
PRINTABLE_ENUM(e6, /* A, B */ A)
PRINTABLE_ENUM(e7, AB)
PRINTABLE_ENUM(e8, AB)
PRINTABLE_ENUM(e9, 
               AB)
PRINTABLE_ENUM(e10,   AB  )
PRINTABLE_ENUM(e11, 
	AB,
)
PRINTABLE_ENUM(e12, 
  AB
)
PRINTABLE_ENUM(e13, /* A, B */ AB)
PRINTABLE_ENUM(e14, B_1)
PRINTABLE_ENUM(e15, B_1)
PRINTABLE_ENUM(e16, 
               B_1)
PRINTABLE_ENUM(e17,   B_1  )
PRINTABLE_ENUM(e18, 
	B_1,
)
PRINTABLE_ENUM(e19, 
  B_1
)
PRINTABLE_ENUM(e20, /* A, B */ B_1)
PRINTABLE_ENUM(e21, ABC)
PRINTABLE_ENUM(e22, ABC)
PRINTABLE_ENUM(e23, 
               ABC)
PRINTABLE_ENUM(e24,   ABC  )
PRINTABLE_ENUM(e25, 
	ABC,
)
PRINTABLE_ENUM(e26, 
  ABC
)
PRINTABLE_ENUM(e27, /* A, B */ ABC)
PRINTABLE_ENUM(e28, A, AB)
PRINTABLE_ENUM(e29, A,AB)
PRINTABLE_ENUM(e30, 
               A,
               AB)
PRINTABLE_ENUM(e31,   A  ,   AB  )
PRINTABLE_ENUM(e32, 
	A,
	AB,
)
PRINTABLE_ENUM(e33, 
  A,  // first, second
  AB
)
PRINTABLE_ENUM(e34, /* A, B */ A /* , */ , AB)
PRINTABLE_ENUM(e35, A, B_1)
PRINTABLE_ENUM(e36, A,B_1)
PRINTABLE_ENUM(e37, 
               A,
               B_1)
PRINTABLE_ENUM(e38,   A  ,   B_1  )
PRINTABLE_ENUM(e39, 
	A,
	B_1,
)
PRINTABLE_ENUM(e40, 
  A,  // first, second
  B_1
)
PRINTABLE_ENUM(e41, /* A, B */ A /* , */ , B_1)
PRINTABLE_ENUM(e42, A, ABC)
PRINTABLE_ENUM(e43, A,ABC)
PRINTABLE_ENUM(e44, 
               A,
               ABC)
PRINTABLE_ENUM(e45,   A  ,   ABC  )
PRINTABLE_ENUM(e46, 
	A,
	ABC,
)
PRINTABLE_ENUM(e47, 
  A,  // first, second
  ABC
)
PRINTABLE_ENUM(e48, /* A, B */ A /* , */ , ABC)
PRINTABLE_ENUM(e49, AB, A)
PRINTABLE_ENUM(e50, AB,A)
PRINTABLE_ENUM(e51, 
               AB,
               A)
PRINTABLE_ENUM(e52,   AB  ,   A  )
PRINTABLE_ENUM(e53, 
	AB,
	A,
)
PRINTABLE_ENUM(e54, 
  AB,  // first, second
  A
)
PRINTABLE_ENUM(e55, /* A, B */ AB /* , */ , A)
PRINTABLE_ENUM(e56, AB, B_1)
PRINTABLE_ENUM(e57, AB,B_1)
PRINTABLE_ENUM(e58, 
               AB,
               B_1)
PRINTABLE_ENUM(e59,   AB  ,   B_1  )
PRINTABLE_ENUM(e60, 
	AB,
	B_1,
)
PRINTABLE_ENUM(e61, 
  AB,  // first, second
  B_1
)
PRINTABLE_ENUM(e62, /* A, B */ AB /* , */ , B_1)
PRINTABLE_ENUM(e63, AB, ABC)
PRINTABLE_ENUM(e64, AB,ABC)
PRINTABLE_ENUM(e65, 
               AB,
               ABC)
PRINTABLE_ENUM(e66,   AB  ,   ABC  )
PRINTABLE_ENUM(e67, 
	AB,
	ABC,
)
PRINTABLE_ENUM(e68, 
  AB,  // first, second
  ABC
)
PRINTABLE_ENUM(e69, /* A, B */ AB /* , */ , ABC)
PRINTABLE_ENUM(e70, B_1, A)
PRINTABLE_ENUM(e71, B_1,A)
PRINTABLE_ENUM(e72, 
               B_1,
               A)
PRINTABLE_ENUM(e73,   B_1  ,   A  )
PRINTABLE_ENUM(e74, 
	B_1,
	A,
)
PRINTABLE_ENUM(e75, 
  B_1,  // first, second
  A
)
PRINTABLE_ENUM(e76, /* A, B */ B_1 /* , */ , A)
PRINTABLE_ENUM(e77, B_1, AB)
PRINTABLE_ENUM(e78, B_1,AB)
PRINTABLE_ENUM(e79, 
               B_1,
               AB)
PRINTABLE_ENUM(e80,   B_1  ,   AB  )
PRINTABLE_ENUM(e81, 
	B_1,
	AB,
)
PRINTABLE_ENUM(e82, 
  B_1,  // first, second
  AB
)
PRINTABLE_ENUM(e83, /* A, B */ B_1 /* , */ , AB)
PRINTABLE_ENUM(e84, B_1, ABC)
PRINTABLE_ENUM(e85, B_1,ABC)
PRINTABLE_ENUM(e86, 
               B_1,
               ABC)
PRINTABLE_ENUM(e87,   B_1  ,   ABC  )
PRINTABLE_ENUM(e88, 
	B_1,
	ABC,
)
PRINTABLE_ENUM(e89, 
  B_1,  // first, second
  ABC
)
PRINTABLE_ENUM(e90, /* A, B */ B_1 /* , */ , ABC)
PRINTABLE_ENUM(e91, ABC, A)
PRINTABLE_ENUM(e92, ABC,A)
PRINTABLE_ENUM(e93, 
               ABC,
               A)
PRINTABLE_ENUM(e94,   ABC  ,   A  )
PRINTABLE_ENUM(e95, 
	ABC,
	A,
)
PRINTABLE_ENUM(e96, 
  ABC,  // first, second
  A
)
PRINTABLE_ENUM(e97, /* A, B */ ABC /* , */ , A)
PRINTABLE_ENUM(e98, ABC, AB)
PRINTABLE_ENUM(e99, ABC,AB)
PRINTABLE_ENUM(e100, 
               ABC,
               AB)
PRINTABLE_ENUM(e101,   ABC  ,   AB  )
PRINTABLE_ENUM(e102, 
	ABC,
	AB,
)
PRINTABLE_ENUM(e103, 
  ABC,  // first, second
  AB
)
PRINTABLE_ENUM(e104, /* A, B */ ABC /* , */ , AB)
PRINTABLE_ENUM(e105, ABC, B_1)
PRINTABLE_ENUM(e106, ABC,B_1)
PRINTABLE_ENUM(e107, 
               ABC,
               B_1)
PRINTABLE_ENUM(e108,   ABC  ,   B_1  )
PRINTABLE_ENUM(e109, 
	ABC,
	B_1,
)
PRINTABLE_ENUM(e110, 
  ABC,  // first, second
  B_1
)
PRINTABLE_ENUM(e111, /* A, B */ ABC /* , */ , B_1)
PRINTABLE_ENUM(e112, A, AB, B_1)
PRINTABLE_ENUM(e113, A,AB,B_1)
PRINTABLE_ENUM(e114, 
               A,
               AB,
               B_1)
PRINTABLE_ENUM(e115,   A  ,   AB  ,   B_1  )
PRINTABLE_ENUM(e116, 
	A,
	AB,
	B_1,
)
PRINTABLE_ENUM(e117, 
  A,  // first, second
  AB,  // first, second
  B_1
)
PRINTABLE_ENUM(e118, /* A, B */ A /* , */ , AB /* , */ , B_1)
PRINTABLE_ENUM(e119, A, AB, ABC)
PRINTABLE_ENUM(e120, A,AB,ABC)
PRINTABLE_ENUM(e121, 
               A,
               AB,
               ABC)
PRINTABLE_ENUM(e122,   A  ,   AB  ,   ABC  )
PRINTABLE_ENUM(e123, 
	A,
	AB,
	ABC,
)
PRINTABLE_ENUM(e124, 
  A,  // first, second
  AB,  // first, second
  ABC
)
PRINTABLE_ENUM(e125, /* A, B */ A /* , */ , AB /* , */ , ABC)
PRINTABLE_ENUM(e126, A, B_1, AB)
PRINTABLE_ENUM(e127, A,B_1,AB)
PRINTABLE_ENUM(e128, 
               A,
               B_1,
               AB)
PRINTABLE_ENUM(e129,   A  ,   B_1  ,   AB  )
PRINTABLE_ENUM(e130, 
	A,
	B_1,
	AB,
)
PRINTABLE_ENUM(e131, 
  A,  // first, second
  B_1,  // first, second
  AB
)
PRINTABLE_ENUM(e132, /* A, B */ A /* , */ , B_1 /* , */ , AB)
PRINTABLE_ENUM(e133, A, B_1, ABC)
PRINTABLE_ENUM(e134, A,B_1,ABC)
PRINTABLE_ENUM(e135, 
               A,
               B_1,
               ABC)
PRINTABLE_ENUM(e136,   A  ,   B_1  ,   ABC  )
PRINTABLE_ENUM(e137, 
	A,
	B_1,
	ABC,
)
PRINTABLE_ENUM(e138, 
  A,  // first, second
  B_1,  // first, second
  ABC
)
PRINTABLE_ENUM(e139, /* A, B */ A /* , */ , B_1 /* , */ , ABC)
PRINTABLE_ENUM(e140, A, ABC, AB)
PRINTABLE_ENUM(e141, A,ABC,AB)
PRINTABLE_ENUM(e142, 
               A,
               ABC,
               AB)
PRINTABLE_ENUM(e143,   A  ,   ABC  ,   AB  )
PRINTABLE_ENUM(e144, 
	A,
	ABC,
	AB,
)
PRINTABLE_ENUM(e145, 
  A,  // first, second
  ABC,  // first, second
  AB
)
PRINTABLE_ENUM(e146, /* A, B */ A /* , */ , ABC /* , */ , AB)
PRINTABLE_ENUM(e147, A, ABC, B_1)
PRINTABLE_ENUM(e148, A,ABC,B_1)
PRINTABLE_ENUM(e149, 
               A,
               ABC,
               B_1)
PRINTABLE_ENUM(e150,   A  ,   ABC  ,   B_1  )
PRINTABLE_ENUM(e151, 
	A,
	ABC,
	B_1,
)
PRINTABLE_ENUM(e152, 
  A,  // first, second
  ABC,  // first, second
  B_1
)
PRINTABLE_ENUM(e153, /* A, B */ A /* , */ , ABC /* , */ , B_1)
PRINTABLE_ENUM(e154, AB, A, B_1)
PRINTABLE_ENUM(e155, AB,A,B_1)
PRINTABLE_ENUM(e156, 
               AB,
               A,
               B_1)
PRINTABLE_ENUM(e157,   AB  ,   A  ,   B_1  )
PRINTABLE_ENUM(e158, 
	AB,
	A,
	B_1,
)
PRINTABLE_ENUM(e159, 
  AB,  // first, second
  A,  // first, second
  B_1
)
PRINTABLE_ENUM(e160, /* A, B */ AB /* , */ , A /* , */ , B_1)
PRINTABLE_ENUM(e161, AB, A, ABC)
PRINTABLE_ENUM(e162, AB,A,ABC)
PRINTABLE_ENUM(e163, 
               AB,
               A,
               ABC)
PRINTABLE_ENUM(e164,   AB  ,   A  ,   ABC  )
PRINTABLE_ENUM(e165, 
	AB,
	A,
	ABC,
)
PRINTABLE_ENUM(e166, 
  AB,  // first, second
  A,  // first, second
  ABC
)
PRINTABLE_ENUM(e167, /* A, B */ AB /* , */ , A /* , */ , ABC)
PRINTABLE_ENUM(e168, AB, B_1, A)
PRINTABLE_ENUM(e169, AB,B_1,A)
PRINTABLE_ENUM(e170, 
               AB,
               B_1,
               A)
PRINTABLE_ENUM(e171,   AB  ,   B_1  ,   A  )
PRINTABLE_ENUM(e172, 
	AB,
	B_1,
	A,
)
PRINTABLE_ENUM(e173, 
  AB,  // first, second
  B_1,  // first, second
  A
)
PRINTABLE_ENUM(e174, /* A, B */ AB /* , */ , B_1 /* , */ , A)
PRINTABLE_ENUM(e175, AB, B_1, ABC)
PRINTABLE_ENUM(e176, AB,B_1,ABC)
PRINTABLE_ENUM(e177, 
               AB,
               B_1,
               ABC)
PRINTABLE_ENUM(e178,   AB  ,   B_1  ,   ABC  )
PRINTABLE_ENUM(e179, 
	AB,
	B_1,
	ABC,
)
PRINTABLE_ENUM(e180, 
  AB,  // first, second
  B_1,  // first, second
  ABC
)
PRINTABLE_ENUM(e181, /* A, B */ AB /* , */ , B_1 /* , */ , ABC)
PRINTABLE_ENUM(e182, AB, ABC, A)
PRINTABLE_ENUM(e183, AB,ABC,A)
PRINTABLE_ENUM(e184, 
               AB,
               ABC,
               A)
PRINTABLE_ENUM(e185,   AB  ,   ABC  ,   A  )
PRINTABLE_ENUM(e186, 
	AB,
	ABC,
	A,
)
PRINTABLE_ENUM(e187, 
  AB,  // first, second
  ABC,  // first, second
  A
)
PRINTABLE_ENUM(e188, /* A, B */ AB /* , */ , ABC /* , */ , A)
PRINTABLE_ENUM(e189, AB, ABC, B_1)
PRINTABLE_ENUM(e190, AB,ABC,B_1)
PRINTABLE_ENUM(e191, 
               AB,
               ABC,
               B_1)
PRINTABLE_ENUM(e192,   AB  ,   ABC  ,   B_1  )
PRINTABLE_ENUM(e193, 
	AB,
	ABC,
	B_1,
)
PRINTABLE_ENUM(e194, 
  AB,  // first, second
  ABC,  // first, second
  B_1
)
PRINTABLE_ENUM(e195, /* A, B */ AB /* , */ , ABC /* , */ , B_1)
PRINTABLE_ENUM(e196, B_1, A, AB)
PRINTABLE_ENUM(e197, B_1,A,AB)
PRINTABLE_ENUM(e198, 
               B_1,
               A,
               AB)
PRINTABLE_ENUM(e199,   B_1  ,   A  ,   AB  )
PRINTABLE_ENUM(e200, 
	B_1,
	A,
	AB,
)
PRINTABLE_ENUM(e201, 
  B_1,  // first, second
  A,  // first, second
  AB
)
PRINTABLE_ENUM(e202, /* A, B */ B_1 /* , */ , A /* , */ , AB)
PRINTABLE_ENUM(e203, B_1, A, ABC)
PRINTABLE_ENUM(e204, B_1,A,ABC)
PRINTABLE_ENUM(e205, 
               B_1,
               A,
               ABC)
PRINTABLE_ENUM(e206,   B_1  ,   A  ,   ABC  )
PRINTABLE_ENUM(e207, 
	B_1,
	A,
	ABC,
)
PRINTABLE_ENUM(e208, 
  B_1,  // first, second
  A,  // first, second
  ABC
)
PRINTABLE_ENUM(e209, /* A, B */ B_1 /* , */ , A /* , */ , ABC)
PRINTABLE_ENUM(e210, B_1, AB, A)
PRINTABLE_ENUM(e211, B_1,AB,A)
PRINTABLE_ENUM(e212, 
               B_1,
               AB,
               A)
PRINTABLE_ENUM(e213,   B_1  ,   AB  ,   A  )
PRINTABLE_ENUM(e214, 
	B_1,
	AB,
	A,
)
PRINTABLE_ENUM(e215, 
  B_1,  // first, second
  AB,  // first, second
  A
)
PRINTABLE_ENUM(e216, /* A, B */ B_1 /* , */ , AB /* , */ , A)
PRINTABLE_ENUM(e217, B_1, AB, ABC)
PRINTABLE_ENUM(e218, B_1,AB,ABC)
PRINTABLE_ENUM(e219, 
               B_1,
               AB,
               ABC)
PRINTABLE_ENUM(e220,   B_1  ,   AB  ,   ABC  )
PRINTABLE_ENUM(e221, 
	B_1,
	AB,
	ABC,
)
PRINTABLE_ENUM(e222, 
  B_1,  // first, second
  AB,  // first, second
  ABC
)
PRINTABLE_ENUM(e223, /* A, B */ B_1 /* , */ , AB /* , */ , ABC)
PRINTABLE_ENUM(e224, B_1, ABC, A)
PRINTABLE_ENUM(e225, B_1,ABC,A)
PRINTABLE_ENUM(e226, 
               B_1,
               ABC,
               A)
PRINTABLE_ENUM(e227,   B_1  ,   ABC  ,   A  )
PRINTABLE_ENUM(e228, 
	B_1,
	ABC,
	A,
)
PRINTABLE_ENUM(e229, 
  B_1,  // first, second
  ABC,  // first, second
  A
)
PRINTABLE_ENUM(e230, /* A, B */ B_1 /* , */ , ABC /* , */ , A)
PRINTABLE_ENUM(e231, B_1, ABC, AB)
PRINTABLE_ENUM(e232, B_1,ABC,AB)
PRINTABLE_ENUM(e233, 
               B_1,
               ABC,
               AB)
PRINTABLE_ENUM(e234,   B_1  ,   ABC  ,   AB  )
PRINTABLE_ENUM(e235, 
	B_1,
	ABC,
	AB,
)
PRINTABLE_ENUM(e236, 
  B_1,  // first, second
  ABC,  // first, second
  AB
)
PRINTABLE_ENUM(e237, /* A, B */ B_1 /* , */ , ABC /* , */ , AB)
PRINTABLE_ENUM(e238, ABC, A, AB)
PRINTABLE_ENUM(e239, ABC,A,AB)
PRINTABLE_ENUM(e240, 
               ABC,
               A,
               AB)
PRINTABLE_ENUM(e241,   ABC  ,   A  ,   AB  )
PRINTABLE_ENUM(e242, 
	ABC,
	A,
	AB,
)
PRINTABLE_ENUM(e243, 
  ABC,  // first, second
  A,  // first, second
  AB
)
PRINTABLE_ENUM(e244, /* A, B */ ABC /* , */ , A /* , */ , AB)
PRINTABLE_ENUM(e245, ABC, A, B_1)
PRINTABLE_ENUM(e246, ABC,A,B_1)
PRINTABLE_ENUM(e247, 
               ABC,
               A,
               B_1)
PRINTABLE_ENUM(e248,   ABC  ,   A  ,   B_1  )
PRINTABLE_ENUM(e249, 
	ABC,
	A,
	B_1,
)
PRINTABLE_ENUM(e250, 
  ABC,  // first, second
  A,  // first, second
  B_1
)
PRINTABLE_ENUM(e251, /* A, B */ ABC /* , */ , A /* , */ , B_1)
PRINTABLE_ENUM(e252, ABC, AB, A)
PRINTABLE_ENUM(e253, ABC,AB,A)
PRINTABLE_ENUM(e254, 
               ABC,
               AB,
               A)
PRINTABLE_ENUM(e255,   ABC  ,   AB  ,   A  )
PRINTABLE_ENUM(e256, 
	ABC,
	AB,
	A,
)
PRINTABLE_ENUM(e257, 
  ABC,  // first, second
  AB,  // first, second
  A
)
PRINTABLE_ENUM(e258, /* A, B */ ABC /* , */ , AB /* , */ , A)
PRINTABLE_ENUM(e259, ABC, AB, B_1)
PRINTABLE_ENUM(e260, ABC,AB,B_1)
PRINTABLE_ENUM(e261, 
               ABC,
               AB,
               B_1)
PRINTABLE_ENUM(e262,   ABC  ,   AB  ,   B_1  )
PRINTABLE_ENUM(e263, 
	ABC,
	AB,
	B_1,
)
PRINTABLE_ENUM(e264, 
  ABC,  // first, second
  AB,  // first, second
  B_1
)
PRINTABLE_ENUM(e265, /* A, B */ ABC /* , */ , AB /* , */ , B_1)
PRINTABLE_ENUM(e266, ABC, B_1, A)
PRINTABLE_ENUM(e267, ABC,B_1,A)
PRINTABLE_ENUM(e268, 
               ABC,
               B_1,
               A)
PRINTABLE_ENUM(e269,   ABC  ,   B_1  ,   A  )
PRINTABLE_ENUM(e270, 
	ABC,
	B_1,
	A,
)
PRINTABLE_ENUM(e271, 
  ABC,  // first, second
  B_1,  // first, second
  A
)
PRINTABLE_ENUM(e272, /* A, B */ ABC /* , */ , B_1 /* , */ , A)
PRINTABLE_ENUM(e273, ABC, B_1, AB)
PRINTABLE_ENUM(e274, ABC,B_1,AB)
PRINTABLE_ENUM(e275, 
               ABC,
               B_1,
               AB)
PRINTABLE_ENUM(e276,   ABC  ,   B_1  ,   AB  )
PRINTABLE_ENUM(e277, 
	ABC,
	B_1,
	AB,
)
PRINTABLE_ENUM(e278, 
  ABC,  // first, second
  B_1,  // first, second
  AB
)
PRINTABLE_ENUM(e279, /* A, B */ ABC /* , */ , B_1 /* , */ , AB)
PRINTABLE_ENUM(e280, A, AB, B_1, ABC)
PRINTABLE_ENUM(e281, A,AB,B_1,ABC)
PRINTABLE_ENUM(e282, 
               A,
               AB,
               B_1,
               ABC)
PRINTABLE_ENUM(e283, A, AB, ABC, B_1)
PRINTABLE_ENUM(e284, A,AB,ABC,B_1)
PRINTABLE_ENUM(e285, 
               A,
               AB,
               ABC,
               B_1)
PRINTABLE_ENUM(e286, A, B_1, AB, ABC)
PRINTABLE_ENUM(e287, A,B_1,AB,ABC)
PRINTABLE_ENUM(e288, 
               A,
               B_1,
               AB,
               ABC)
PRINTABLE_ENUM(e289, A, B_1, ABC, AB)
PRINTABLE_ENUM(e290, A,B_1,ABC,AB)
PRINTABLE_ENUM(e291, 
               A,
               B_1,
               ABC,
               AB)
PRINTABLE_ENUM(e292, A, ABC, AB, B_1)
PRINTABLE_ENUM(e293, A,ABC,AB,B_1)
PRINTABLE_ENUM(e294, 
               A,
               ABC,
               AB,
               B_1)
PRINTABLE_ENUM(e295, A, ABC, B_1, AB)
PRINTABLE_ENUM(e296, A,ABC,B_1,AB)
PRINTABLE_ENUM(e297, 
               A,
               ABC,
               B_1,
               AB)
PRINTABLE_ENUM(e298, AB, A, B_1, ABC)
PRINTABLE_ENUM(e299, AB,A,B_1,ABC)
PRINTABLE_ENUM(e300, 
               AB,
               A,
               B_1,
               ABC)
PRINTABLE_ENUM(e301, AB, A, ABC, B_1)
PRINTABLE_ENUM(e302, AB,A,ABC,B_1)
PRINTABLE_ENUM(e303, 
               AB,
               A,
               ABC,
               B_1)
PRINTABLE_ENUM(e304, AB, B_1, A, ABC)
PRINTABLE_ENUM(e305, AB,B_1,A,ABC)
PRINTABLE_ENUM(e306, 
               AB,
               B_1,
               A,
               ABC)
PRINTABLE_ENUM(e307, AB, B_1, ABC, A)
PRINTABLE_ENUM(e308, AB,B_1,ABC,A)
PRINTABLE_ENUM(e309, 
               AB,
               B_1,
               ABC,
               A)
PRINTABLE_ENUM(e310, AB, ABC, A, B_1)
PRINTABLE_ENUM(e311, AB,ABC,A,B_1)
PRINTABLE_ENUM(e312, 
               AB,
               ABC,
               A,
               B_1)
PRINTABLE_ENUM(e313, AB, ABC, B_1, A)
PRINTABLE_ENUM(e314, AB,ABC,B_1,A)
PRINTABLE_ENUM(e315, 
               AB,
               ABC,
               B_1,
               A)
PRINTABLE_ENUM(e316, B_1, A, AB, ABC)
PRINTABLE_ENUM(e317, B_1,A,AB,ABC)
PRINTABLE_ENUM(e318, 
               B_1,
               A,
               AB,
               ABC)
PRINTABLE_ENUM(e319, B_1, A, ABC, AB)
PRINTABLE_ENUM(e320, B_1,A,ABC,AB)
PRINTABLE_ENUM(e321, 
               B_1,
               A,
               ABC,
               AB)
PRINTABLE_ENUM(e322, B_1, AB, A, ABC)
PRINTABLE_ENUM(e323, B_1,AB,A,ABC)
PRINTABLE_ENUM(e324, 
               B_1,
               AB,
               A,
               ABC)
PRINTABLE_ENUM(e325, B_1, AB, ABC, A)
PRINTABLE_ENUM(e326, B_1,AB,ABC,A)
PRINTABLE_ENUM(e327, 
               B_1,
               AB,
               ABC,
               A)
PRINTABLE_ENUM(e328, B_1, ABC, A, AB)
PRINTABLE_ENUM(e329, B_1,ABC,A,AB)
PRINTABLE_ENUM(e330, 
               B_1,
               ABC,
               A,
               AB)
PRINTABLE_ENUM(e331, B_1, ABC, AB, A)
PRINTABLE_ENUM(e332, B_1,ABC,AB,A)
PRINTABLE_ENUM(e333, 
               B_1,
               ABC,
               AB,
               A)
PRINTABLE_ENUM(e334, ABC, A, AB, B_1)
PRINTABLE_ENUM(e335, ABC,A,AB,B_1)
PRINTABLE_ENUM(e336, 
               ABC,
               A,
               AB,
               B_1)
PRINTABLE_ENUM(e337, ABC, A, B_1, AB)
PRINTABLE_ENUM(e338, ABC,A,B_1,AB)
PRINTABLE_ENUM(e339, 
               ABC,
               A,
               B_1,
               AB)
PRINTABLE_ENUM(e340, ABC, AB, A, B_1)
PRINTABLE_ENUM(e341, ABC,AB,A,B_1)
PRINTABLE_ENUM(e342, 
               ABC,
               AB,
               A,
               B_1)
PRINTABLE_ENUM(e343, ABC, AB, B_1, A)
PRINTABLE_ENUM(e344, ABC,AB,B_1,A)
PRINTABLE_ENUM(e345, 
               ABC,
               AB,
               B_1,
               A)
PRINTABLE_ENUM(e346, ABC, B_1, A, AB)
PRINTABLE_ENUM(e347, ABC,B_1,A,AB)
PRINTABLE_ENUM(e348, 
               ABC,
               B_1,
               A,
               AB)
PRINTABLE_ENUM(e349, ABC, B_1, AB, A)
PRINTABLE_ENUM(e350, ABC,B_1,AB,A)
PRINTABLE_ENUM(e351, 
               ABC,
               B_1,
               AB,
               A)
PRINTABLE_ENUM(e352, N0_, N1, N2, N3_xxx, N4, N5, N6_xxxxxx)
PRINTABLE_ENUM(e353, N0_,N1,N2,N3_xxx,N4,N5,N6_xxxxxx)
PRINTABLE_ENUM(e354, 
               N0_,
               N1,
               N2,
               N3_xxx,
               N4,
               N5,
               N6_xxxxxx)
PRINTABLE_ENUM(e355,   N0_  ,   N1  ,   N2  ,   N3_xxx  ,   N4  ,   N5  ,   N6_xxxxxx  )
PRINTABLE_ENUM(e356, 
	N0_,
	N1,
	N2,
	N3_xxx,
	N4,
	N5,
	N6_xxxxxx,
)
PRINTABLE_ENUM(e357, 
  N0_,  // first, second
  N1,  // first, second
  N2,  // first, second
  N3_xxx,  // first, second
  N4,  // first, second
  N5,  // first, second
  N6_xxxxxx
)
PRINTABLE_ENUM(e358, /* A, B */ N0_ /* , */ , N1 /* , */ , N2 /* , */ , N3_xxx /* , */ , N4 /* , */ , N5 /* , */ , N6_xxxxxx)
PRINTABLE_ENUM(e359, N0_, N1, N2, N3_xxx, N4, N5, N6_xxxxxx, N7, N8, N9_xxxxxxxxx, Na, Nb, N12_xxxxxxxxxxxx, Nd, Ne, N15_xxxxxxxxxxxxxxx, N10, N11, N18_xxxxxxxxxxxxxxxxxx, N13, N14, N21_xxxxxxxxxxxxxxxxxxxxx, N16, N17, N24_xxxxxxxxxxxxxxxxxxxxxxxx, N19, N1a, N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx, N1c, N1d, N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx)
PRINTABLE_ENUM(e360, N0_,N1,N2,N3_xxx,N4,N5,N6_xxxxxx,N7,N8,N9_xxxxxxxxx,Na,Nb,N12_xxxxxxxxxxxx,Nd,Ne,N15_xxxxxxxxxxxxxxx,N10,N11,N18_xxxxxxxxxxxxxxxxxx,N13,N14,N21_xxxxxxxxxxxxxxxxxxxxx,N16,N17,N24_xxxxxxxxxxxxxxxxxxxxxxxx,N19,N1a,N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx,N1c,N1d,N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx)
PRINTABLE_ENUM(e361, 
               N0_,
               N1,
               N2,
               N3_xxx,
               N4,
               N5,
               N6_xxxxxx,
               N7,
               N8,
               N9_xxxxxxxxx,
               Na,
               Nb,
               N12_xxxxxxxxxxxx,
               Nd,
               Ne,
               N15_xxxxxxxxxxxxxxx,
               N10,
               N11,
               N18_xxxxxxxxxxxxxxxxxx,
               N13,
               N14,
               N21_xxxxxxxxxxxxxxxxxxxxx,
               N16,
               N17,
               N24_xxxxxxxxxxxxxxxxxxxxxxxx,
               N19,
               N1a,
               N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N1c,
               N1d,
               N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx)
PRINTABLE_ENUM(e362,   N0_  ,   N1  ,   N2  ,   N3_xxx  ,   N4  ,   N5  ,   N6_xxxxxx  ,   N7  ,   N8  ,   N9_xxxxxxxxx  ,   Na  ,   Nb  ,   N12_xxxxxxxxxxxx  ,   Nd  ,   Ne  ,   N15_xxxxxxxxxxxxxxx  ,   N10  ,   N11  ,   N18_xxxxxxxxxxxxxxxxxx  ,   N13  ,   N14  ,   N21_xxxxxxxxxxxxxxxxxxxxx  ,   N16  ,   N17  ,   N24_xxxxxxxxxxxxxxxxxxxxxxxx  ,   N19  ,   N1a  ,   N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N1c  ,   N1d  ,   N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  )
PRINTABLE_ENUM(e363, 
	N0_,
	N1,
	N2,
	N3_xxx,
	N4,
	N5,
	N6_xxxxxx,
	N7,
	N8,
	N9_xxxxxxxxx,
	Na,
	Nb,
	N12_xxxxxxxxxxxx,
	Nd,
	Ne,
	N15_xxxxxxxxxxxxxxx,
	N10,
	N11,
	N18_xxxxxxxxxxxxxxxxxx,
	N13,
	N14,
	N21_xxxxxxxxxxxxxxxxxxxxx,
	N16,
	N17,
	N24_xxxxxxxxxxxxxxxxxxxxxxxx,
	N19,
	N1a,
	N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N1c,
	N1d,
	N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
)
PRINTABLE_ENUM(e364, 
  N0_,  // first, second
  N1,  // first, second
  N2,  // first, second
  N3_xxx,  // first, second
  N4,  // first, second
  N5,  // first, second
  N6_xxxxxx,  // first, second
  N7,  // first, second
  N8,  // first, second
  N9_xxxxxxxxx,  // first, second
  Na,  // first, second
  Nb,  // first, second
  N12_xxxxxxxxxxxx,  // first, second
  Nd,  // first, second
  Ne,  // first, second
  N15_xxxxxxxxxxxxxxx,  // first, second
  N10,  // first, second
  N11,  // first, second
  N18_xxxxxxxxxxxxxxxxxx,  // first, second
  N13,  // first, second
  N14,  // first, second
  N21_xxxxxxxxxxxxxxxxxxxxx,  // first, second
  N16,  // first, second
  N17,  // first, second
  N24_xxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N19,  // first, second
  N1a,  // first, second
  N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N1c,  // first, second
  N1d,  // first, second
  N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
)
PRINTABLE_ENUM(e365, /* A, B */ N0_ /* , */ , N1 /* , */ , N2 /* , */ , N3_xxx /* , */ , N4 /* , */ , N5 /* , */ , N6_xxxxxx /* , */ , N7 /* , */ , N8 /* , */ , N9_xxxxxxxxx /* , */ , Na /* , */ , Nb /* , */ , N12_xxxxxxxxxxxx /* , */ , Nd /* , */ , Ne /* , */ , N15_xxxxxxxxxxxxxxx /* , */ , N10 /* , */ , N11 /* , */ , N18_xxxxxxxxxxxxxxxxxx /* , */ , N13 /* , */ , N14 /* , */ , N21_xxxxxxxxxxxxxxxxxxxxx /* , */ , N16 /* , */ , N17 /* , */ , N24_xxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N19 /* , */ , N1a /* , */ , N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N1c /* , */ , N1d /* , */ , N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx)
PRINTABLE_ENUM(e366, N0_, N1, N2, N3_xxx, N4, N5, N6_xxxxxx, N7, N8, N9_xxxxxxxxx, Na, Nb, N12_xxxxxxxxxxxx, Nd, Ne, N15_xxxxxxxxxxxxxxx, N10, N11, N18_xxxxxxxxxxxxxxxxxx, N13, N14, N21_xxxxxxxxxxxxxxxxxxxxx, N16, N17, N24_xxxxxxxxxxxxxxxxxxxxxxxx, N19, N1a, N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx, N1c, N1d, N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N1f, N20, N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N22, N23, N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N25, N26, N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N28, N29, N42_xx, N2b, N2c, N45_xxxxx, N2e, N2f, N48_xxxxxxxx, N31, N32, N51_xxxxxxxxxxx, N34, N35, N54_xxxxxxxxxxxxxx, N37, N38, N57_xxxxxxxxxxxxxxxxx, N3a, N3b, N60_xxxxxxxxxxxxxxxxxxxx, N3d, N3e, N63_xxxxxxxxxxxxxxxxxxxxxxx)
PRINTABLE_ENUM(e367, N0_,N1,N2,N3_xxx,N4,N5,N6_xxxxxx,N7,N8,N9_xxxxxxxxx,Na,Nb,N12_xxxxxxxxxxxx,Nd,Ne,N15_xxxxxxxxxxxxxxx,N10,N11,N18_xxxxxxxxxxxxxxxxxx,N13,N14,N21_xxxxxxxxxxxxxxxxxxxxx,N16,N17,N24_xxxxxxxxxxxxxxxxxxxxxxxx,N19,N1a,N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx,N1c,N1d,N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N1f,N20,N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N22,N23,N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N25,N26,N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N28,N29,N42_xx,N2b,N2c,N45_xxxxx,N2e,N2f,N48_xxxxxxxx,N31,N32,N51_xxxxxxxxxxx,N34,N35,N54_xxxxxxxxxxxxxx,N37,N38,N57_xxxxxxxxxxxxxxxxx,N3a,N3b,N60_xxxxxxxxxxxxxxxxxxxx,N3d,N3e,N63_xxxxxxxxxxxxxxxxxxxxxxx)
PRINTABLE_ENUM(e368, 
               N0_,
               N1,
               N2,
               N3_xxx,
               N4,
               N5,
               N6_xxxxxx,
               N7,
               N8,
               N9_xxxxxxxxx,
               Na,
               Nb,
               N12_xxxxxxxxxxxx,
               Nd,
               Ne,
               N15_xxxxxxxxxxxxxxx,
               N10,
               N11,
               N18_xxxxxxxxxxxxxxxxxx,
               N13,
               N14,
               N21_xxxxxxxxxxxxxxxxxxxxx,
               N16,
               N17,
               N24_xxxxxxxxxxxxxxxxxxxxxxxx,
               N19,
               N1a,
               N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N1c,
               N1d,
               N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N1f,
               N20,
               N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N22,
               N23,
               N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N25,
               N26,
               N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N28,
               N29,
               N42_xx,
               N2b,
               N2c,
               N45_xxxxx,
               N2e,
               N2f,
               N48_xxxxxxxx,
               N31,
               N32,
               N51_xxxxxxxxxxx,
               N34,
               N35,
               N54_xxxxxxxxxxxxxx,
               N37,
               N38,
               N57_xxxxxxxxxxxxxxxxx,
               N3a,
               N3b,
               N60_xxxxxxxxxxxxxxxxxxxx,
               N3d,
               N3e,
               N63_xxxxxxxxxxxxxxxxxxxxxxx)
PRINTABLE_ENUM(e369,   N0_  ,   N1  ,   N2  ,   N3_xxx  ,   N4  ,   N5  ,   N6_xxxxxx  ,   N7  ,   N8  ,   N9_xxxxxxxxx  ,   Na  ,   Nb  ,   N12_xxxxxxxxxxxx  ,   Nd  ,   Ne  ,   N15_xxxxxxxxxxxxxxx  ,   N10  ,   N11  ,   N18_xxxxxxxxxxxxxxxxxx  ,   N13  ,   N14  ,   N21_xxxxxxxxxxxxxxxxxxxxx  ,   N16  ,   N17  ,   N24_xxxxxxxxxxxxxxxxxxxxxxxx  ,   N19  ,   N1a  ,   N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N1c  ,   N1d  ,   N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N1f  ,   N20  ,   N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N22  ,   N23  ,   N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N25  ,   N26  ,   N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N28  ,   N29  ,   N42_xx  ,   N2b  ,   N2c  ,   N45_xxxxx  ,   N2e  ,   N2f  ,   N48_xxxxxxxx  ,   N31  ,   N32  ,   N51_xxxxxxxxxxx  ,   N34  ,   N35  ,   N54_xxxxxxxxxxxxxx  ,   N37  ,   N38  ,   N57_xxxxxxxxxxxxxxxxx  ,   N3a  ,   N3b  ,   N60_xxxxxxxxxxxxxxxxxxxx  ,   N3d  ,   N3e  ,   N63_xxxxxxxxxxxxxxxxxxxxxxx  )
PRINTABLE_ENUM(e370, 
	N0_,
	N1,
	N2,
	N3_xxx,
	N4,
	N5,
	N6_xxxxxx,
	N7,
	N8,
	N9_xxxxxxxxx,
	Na,
	Nb,
	N12_xxxxxxxxxxxx,
	Nd,
	Ne,
	N15_xxxxxxxxxxxxxxx,
	N10,
	N11,
	N18_xxxxxxxxxxxxxxxxxx,
	N13,
	N14,
	N21_xxxxxxxxxxxxxxxxxxxxx,
	N16,
	N17,
	N24_xxxxxxxxxxxxxxxxxxxxxxxx,
	N19,
	N1a,
	N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N1c,
	N1d,
	N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N1f,
	N20,
	N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N22,
	N23,
	N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N25,
	N26,
	N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N28,
	N29,
	N42_xx,
	N2b,
	N2c,
	N45_xxxxx,
	N2e,
	N2f,
	N48_xxxxxxxx,
	N31,
	N32,
	N51_xxxxxxxxxxx,
	N34,
	N35,
	N54_xxxxxxxxxxxxxx,
	N37,
	N38,
	N57_xxxxxxxxxxxxxxxxx,
	N3a,
	N3b,
	N60_xxxxxxxxxxxxxxxxxxxx,
	N3d,
	N3e,
	N63_xxxxxxxxxxxxxxxxxxxxxxx,
)
PRINTABLE_ENUM(e371, 
  N0_,  // first, second
  N1,  // first, second
  N2,  // first, second
  N3_xxx,  // first, second
  N4,  // first, second
  N5,  // first, second
  N6_xxxxxx,  // first, second
  N7,  // first, second
  N8,  // first, second
  N9_xxxxxxxxx,  // first, second
  Na,  // first, second
  Nb,  // first, second
  N12_xxxxxxxxxxxx,  // first, second
  Nd,  // first, second
  Ne,  // first, second
  N15_xxxxxxxxxxxxxxx,  // first, second
  N10,  // first, second
  N11,  // first, second
  N18_xxxxxxxxxxxxxxxxxx,  // first, second
  N13,  // first, second
  N14,  // first, second
  N21_xxxxxxxxxxxxxxxxxxxxx,  // first, second
  N16,  // first, second
  N17,  // first, second
  N24_xxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N19,  // first, second
  N1a,  // first, second
  N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N1c,  // first, second
  N1d,  // first, second
  N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N1f,  // first, second
  N20,  // first, second
  N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N22,  // first, second
  N23,  // first, second
  N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N25,  // first, second
  N26,  // first, second
  N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N28,  // first, second
  N29,  // first, second
  N42_xx,  // first, second
  N2b,  // first, second
  N2c,  // first, second
  N45_xxxxx,  // first, second
  N2e,  // first, second
  N2f,  // first, second
  N48_xxxxxxxx,  // first, second
  N31,  // first, second
  N32,  // first, second
  N51_xxxxxxxxxxx,  // first, second
  N34,  // first, second
  N35,  // first, second
  N54_xxxxxxxxxxxxxx,  // first, second
  N37,  // first, second
  N38,  // first, second
  N57_xxxxxxxxxxxxxxxxx,  // first, second
  N3a,  // first, second
  N3b,  // first, second
  N60_xxxxxxxxxxxxxxxxxxxx,  // first, second
  N3d,  // first, second
  N3e,  // first, second
  N63_xxxxxxxxxxxxxxxxxxxxxxx
)
PRINTABLE_ENUM(e372, /* A, B */ N0_ /* , */ , N1 /* , */ , N2 /* , */ , N3_xxx /* , */ , N4 /* , */ , N5 /* , */ , N6_xxxxxx /* , */ , N7 /* , */ , N8 /* , */ , N9_xxxxxxxxx /* , */ , Na /* , */ , Nb /* , */ , N12_xxxxxxxxxxxx /* , */ , Nd /* , */ , Ne /* , */ , N15_xxxxxxxxxxxxxxx /* , */ , N10 /* , */ , N11 /* , */ , N18_xxxxxxxxxxxxxxxxxx /* , */ , N13 /* , */ , N14 /* , */ , N21_xxxxxxxxxxxxxxxxxxxxx /* , */ , N16 /* , */ , N17 /* , */ , N24_xxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N19 /* , */ , N1a /* , */ , N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N1c /* , */ , N1d /* , */ , N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N1f /* , */ , N20 /* , */ , N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N22 /* , */ , N23 /* , */ , N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N25 /* , */ , N26 /* , */ , N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N28 /* , */ , N29 /* , */ , N42_xx /* , */ , N2b /* , */ , N2c /* , */ , N45_xxxxx /* , */ , N2e /* , */ , N2f /* , */ , N48_xxxxxxxx /* , */ , N31 /* , */ , N32 /* , */ , N51_xxxxxxxxxxx /* , */ , N34 /* , */ , N35 /* , */ , N54_xxxxxxxxxxxxxx /* , */ , N37 /* , */ , N38 /* , */ , N57_xxxxxxxxxxxxxxxxx /* , */ , N3a /* , */ , N3b /* , */ , N60_xxxxxxxxxxxxxxxxxxxx /* , */ , N3d /* , */ , N3e /* , */ , N63_xxxxxxxxxxxxxxxxxxxxxxx)
PRINTABLE_ENUM(e373, N0_, N1, N2, N3_xxx, N4, N5, N6_xxxxxx, N7, N8, N9_xxxxxxxxx, Na, Nb, N12_xxxxxxxxxxxx, Nd, Ne, N15_xxxxxxxxxxxxxxx, N10, N11, N18_xxxxxxxxxxxxxxxxxx, N13, N14, N21_xxxxxxxxxxxxxxxxxxxxx, N16, N17, N24_xxxxxxxxxxxxxxxxxxxxxxxx, N19, N1a, N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx, N1c, N1d, N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N1f, N20, N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N22, N23, N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N25, N26, N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N28, N29, N42_xx, N2b, N2c, N45_xxxxx, N2e, N2f, N48_xxxxxxxx, N31, N32, N51_xxxxxxxxxxx, N34, N35, N54_xxxxxxxxxxxxxx, N37, N38, N57_xxxxxxxxxxxxxxxxx, N3a, N3b, N60_xxxxxxxxxxxxxxxxxxxx, N3d, N3e, N63_xxxxxxxxxxxxxxxxxxxxxxx, N40, N41, N66_xxxxxxxxxxxxxxxxxxxxxxxxxx, N43, N44, N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N46, N47, N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N49, N4a, N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N4c, N4d, N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N4f, N50, N81_x, N52, N53, N84_xxxx, N55, N56, N87_xxxxxxx, N58, N59, N90_xxxxxxxxxx, N5b, N5c, N93_xxxxxxxxxxxxx, N5e, N5f, N96_xxxxxxxxxxxxxxxx, N61, N62, N99_xxxxxxxxxxxxxxxxxxx, N64, N65, N102_xxxxxxxxxxxxxxxxxxxxxx, N67, N68, N105_xxxxxxxxxxxxxxxxxxxxxxxxx, N6a, N6b, N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx, N6d, N6e, N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N70, N71, N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N73, N74, N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N76, N77, N120_, N79, N7a, N123_xxx, N7c, N7d, N126_xxxxxx, N7f, N80, N129_xxxxxxxxx)
PRINTABLE_ENUM(e374, N0_,N1,N2,N3_xxx,N4,N5,N6_xxxxxx,N7,N8,N9_xxxxxxxxx,Na,Nb,N12_xxxxxxxxxxxx,Nd,Ne,N15_xxxxxxxxxxxxxxx,N10,N11,N18_xxxxxxxxxxxxxxxxxx,N13,N14,N21_xxxxxxxxxxxxxxxxxxxxx,N16,N17,N24_xxxxxxxxxxxxxxxxxxxxxxxx,N19,N1a,N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx,N1c,N1d,N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N1f,N20,N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N22,N23,N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N25,N26,N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N28,N29,N42_xx,N2b,N2c,N45_xxxxx,N2e,N2f,N48_xxxxxxxx,N31,N32,N51_xxxxxxxxxxx,N34,N35,N54_xxxxxxxxxxxxxx,N37,N38,N57_xxxxxxxxxxxxxxxxx,N3a,N3b,N60_xxxxxxxxxxxxxxxxxxxx,N3d,N3e,N63_xxxxxxxxxxxxxxxxxxxxxxx,N40,N41,N66_xxxxxxxxxxxxxxxxxxxxxxxxxx,N43,N44,N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N46,N47,N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N49,N4a,N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N4c,N4d,N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N4f,N50,N81_x,N52,N53,N84_xxxx,N55,N56,N87_xxxxxxx,N58,N59,N90_xxxxxxxxxx,N5b,N5c,N93_xxxxxxxxxxxxx,N5e,N5f,N96_xxxxxxxxxxxxxxxx,N61,N62,N99_xxxxxxxxxxxxxxxxxxx,N64,N65,N102_xxxxxxxxxxxxxxxxxxxxxx,N67,N68,N105_xxxxxxxxxxxxxxxxxxxxxxxxx,N6a,N6b,N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx,N6d,N6e,N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N70,N71,N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N73,N74,N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N76,N77,N120_,N79,N7a,N123_xxx,N7c,N7d,N126_xxxxxx,N7f,N80,N129_xxxxxxxxx)
PRINTABLE_ENUM(e375, 
               N0_,
               N1,
               N2,
               N3_xxx,
               N4,
               N5,
               N6_xxxxxx,
               N7,
               N8,
               N9_xxxxxxxxx,
               Na,
               Nb,
               N12_xxxxxxxxxxxx,
               Nd,
               Ne,
               N15_xxxxxxxxxxxxxxx,
               N10,
               N11,
               N18_xxxxxxxxxxxxxxxxxx,
               N13,
               N14,
               N21_xxxxxxxxxxxxxxxxxxxxx,
               N16,
               N17,
               N24_xxxxxxxxxxxxxxxxxxxxxxxx,
               N19,
               N1a,
               N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N1c,
               N1d,
               N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N1f,
               N20,
               N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N22,
               N23,
               N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N25,
               N26,
               N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N28,
               N29,
               N42_xx,
               N2b,
               N2c,
               N45_xxxxx,
               N2e,
               N2f,
               N48_xxxxxxxx,
               N31,
               N32,
               N51_xxxxxxxxxxx,
               N34,
               N35,
               N54_xxxxxxxxxxxxxx,
               N37,
               N38,
               N57_xxxxxxxxxxxxxxxxx,
               N3a,
               N3b,
               N60_xxxxxxxxxxxxxxxxxxxx,
               N3d,
               N3e,
               N63_xxxxxxxxxxxxxxxxxxxxxxx,
               N40,
               N41,
               N66_xxxxxxxxxxxxxxxxxxxxxxxxxx,
               N43,
               N44,
               N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N46,
               N47,
               N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N49,
               N4a,
               N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N4c,
               N4d,
               N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N4f,
               N50,
               N81_x,
               N52,
               N53,
               N84_xxxx,
               N55,
               N56,
               N87_xxxxxxx,
               N58,
               N59,
               N90_xxxxxxxxxx,
               N5b,
               N5c,
               N93_xxxxxxxxxxxxx,
               N5e,
               N5f,
               N96_xxxxxxxxxxxxxxxx,
               N61,
               N62,
               N99_xxxxxxxxxxxxxxxxxxx,
               N64,
               N65,
               N102_xxxxxxxxxxxxxxxxxxxxxx,
               N67,
               N68,
               N105_xxxxxxxxxxxxxxxxxxxxxxxxx,
               N6a,
               N6b,
               N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N6d,
               N6e,
               N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N70,
               N71,
               N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N73,
               N74,
               N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N76,
               N77,
               N120_,
               N79,
               N7a,
               N123_xxx,
               N7c,
               N7d,
               N126_xxxxxx,
               N7f,
               N80,
               N129_xxxxxxxxx)
PRINTABLE_ENUM(e376,   N0_  ,   N1  ,   N2  ,   N3_xxx  ,   N4  ,   N5  ,   N6_xxxxxx  ,   N7  ,   N8  ,   N9_xxxxxxxxx  ,   Na  ,   Nb  ,   N12_xxxxxxxxxxxx  ,   Nd  ,   Ne  ,   N15_xxxxxxxxxxxxxxx  ,   N10  ,   N11  ,   N18_xxxxxxxxxxxxxxxxxx  ,   N13  ,   N14  ,   N21_xxxxxxxxxxxxxxxxxxxxx  ,   N16  ,   N17  ,   N24_xxxxxxxxxxxxxxxxxxxxxxxx  ,   N19  ,   N1a  ,   N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N1c  ,   N1d  ,   N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N1f  ,   N20  ,   N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N22  ,   N23  ,   N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N25  ,   N26  ,   N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N28  ,   N29  ,   N42_xx  ,   N2b  ,   N2c  ,   N45_xxxxx  ,   N2e  ,   N2f  ,   N48_xxxxxxxx  ,   N31  ,   N32  ,   N51_xxxxxxxxxxx  ,   N34  ,   N35  ,   N54_xxxxxxxxxxxxxx  ,   N37  ,   N38  ,   N57_xxxxxxxxxxxxxxxxx  ,   N3a  ,   N3b  ,   N60_xxxxxxxxxxxxxxxxxxxx  ,   N3d  ,   N3e  ,   N63_xxxxxxxxxxxxxxxxxxxxxxx  ,   N40  ,   N41  ,   N66_xxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N43  ,   N44  ,   N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N46  ,   N47  ,   N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N49  ,   N4a  ,   N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N4c  ,   N4d  ,   N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N4f  ,   N50  ,   N81_x  ,   N52  ,   N53  ,   N84_xxxx  ,   N55  ,   N56  ,   N87_xxxxxxx  ,   N58  ,   N59  ,   N90_xxxxxxxxxx  ,   N5b  ,   N5c  ,   N93_xxxxxxxxxxxxx  ,   N5e  ,   N5f  ,   N96_xxxxxxxxxxxxxxxx  ,   N61  ,   N62  ,   N99_xxxxxxxxxxxxxxxxxxx  ,   N64  ,   N65  ,   N102_xxxxxxxxxxxxxxxxxxxxxx  ,   N67  ,   N68  ,   N105_xxxxxxxxxxxxxxxxxxxxxxxxx  ,   N6a  ,   N6b  ,   N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N6d  ,   N6e  ,   N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N70  ,   N71  ,   N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N73  ,   N74  ,   N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N76  ,   N77  ,   N120_  ,   N79  ,   N7a  ,   N123_xxx  ,   N7c  ,   N7d  ,   N126_xxxxxx  ,   N7f  ,   N80  ,   N129_xxxxxxxxx  )
PRINTABLE_ENUM(e377, 
	N0_,
	N1,
	N2,
	N3_xxx,
	N4,
	N5,
	N6_xxxxxx,
	N7,
	N8,
	N9_xxxxxxxxx,
	Na,
	Nb,
	N12_xxxxxxxxxxxx,
	Nd,
	Ne,
	N15_xxxxxxxxxxxxxxx,
	N10,
	N11,
	N18_xxxxxxxxxxxxxxxxxx,
	N13,
	N14,
	N21_xxxxxxxxxxxxxxxxxxxxx,
	N16,
	N17,
	N24_xxxxxxxxxxxxxxxxxxxxxxxx,
	N19,
	N1a,
	N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N1c,
	N1d,
	N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N1f,
	N20,
	N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N22,
	N23,
	N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N25,
	N26,
	N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N28,
	N29,
	N42_xx,
	N2b,
	N2c,
	N45_xxxxx,
	N2e,
	N2f,
	N48_xxxxxxxx,
	N31,
	N32,
	N51_xxxxxxxxxxx,
	N34,
	N35,
	N54_xxxxxxxxxxxxxx,
	N37,
	N38,
	N57_xxxxxxxxxxxxxxxxx,
	N3a,
	N3b,
	N60_xxxxxxxxxxxxxxxxxxxx,
	N3d,
	N3e,
	N63_xxxxxxxxxxxxxxxxxxxxxxx,
	N40,
	N41,
	N66_xxxxxxxxxxxxxxxxxxxxxxxxxx,
	N43,
	N44,
	N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N46,
	N47,
	N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N49,
	N4a,
	N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N4c,
	N4d,
	N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N4f,
	N50,
	N81_x,
	N52,
	N53,
	N84_xxxx,
	N55,
	N56,
	N87_xxxxxxx,
	N58,
	N59,
	N90_xxxxxxxxxx,
	N5b,
	N5c,
	N93_xxxxxxxxxxxxx,
	N5e,
	N5f,
	N96_xxxxxxxxxxxxxxxx,
	N61,
	N62,
	N99_xxxxxxxxxxxxxxxxxxx,
	N64,
	N65,
	N102_xxxxxxxxxxxxxxxxxxxxxx,
	N67,
	N68,
	N105_xxxxxxxxxxxxxxxxxxxxxxxxx,
	N6a,
	N6b,
	N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N6d,
	N6e,
	N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N70,
	N71,
	N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N73,
	N74,
	N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N76,
	N77,
	N120_,
	N79,
	N7a,
	N123_xxx,
	N7c,
	N7d,
	N126_xxxxxx,
	N7f,
	N80,
	N129_xxxxxxxxx,
)
PRINTABLE_ENUM(e378, 
  N0_,  // first, second
  N1,  // first, second
  N2,  // first, second
  N3_xxx,  // first, second
  N4,  // first, second
  N5,  // first, second
  N6_xxxxxx,  // first, second
  N7,  // first, second
  N8,  // first, second
  N9_xxxxxxxxx,  // first, second
  Na,  // first, second
  Nb,  // first, second
  N12_xxxxxxxxxxxx,  // first, second
  Nd,  // first, second
  Ne,  // first, second
  N15_xxxxxxxxxxxxxxx,  // first, second
  N10,  // first, second
  N11,  // first, second
  N18_xxxxxxxxxxxxxxxxxx,  // first, second
  N13,  // first, second
  N14,  // first, second
  N21_xxxxxxxxxxxxxxxxxxxxx,  // first, second
  N16,  // first, second
  N17,  // first, second
  N24_xxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N19,  // first, second
  N1a,  // first, second
  N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N1c,  // first, second
  N1d,  // first, second
  N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N1f,  // first, second
  N20,  // first, second
  N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N22,  // first, second
  N23,  // first, second
  N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N25,  // first, second
  N26,  // first, second
  N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N28,  // first, second
  N29,  // first, second
  N42_xx,  // first, second
  N2b,  // first, second
  N2c,  // first, second
  N45_xxxxx,  // first, second
  N2e,  // first, second
  N2f,  // first, second
  N48_xxxxxxxx,  // first, second
  N31,  // first, second
  N32,  // first, second
  N51_xxxxxxxxxxx,  // first, second
  N34,  // first, second
  N35,  // first, second
  N54_xxxxxxxxxxxxxx,  // first, second
  N37,  // first, second
  N38,  // first, second
  N57_xxxxxxxxxxxxxxxxx,  // first, second
  N3a,  // first, second
  N3b,  // first, second
  N60_xxxxxxxxxxxxxxxxxxxx,  // first, second
  N3d,  // first, second
  N3e,  // first, second
  N63_xxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N40,  // first, second
  N41,  // first, second
  N66_xxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N43,  // first, second
  N44,  // first, second
  N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N46,  // first, second
  N47,  // first, second
  N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N49,  // first, second
  N4a,  // first, second
  N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N4c,  // first, second
  N4d,  // first, second
  N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N4f,  // first, second
  N50,  // first, second
  N81_x,  // first, second
  N52,  // first, second
  N53,  // first, second
  N84_xxxx,  // first, second
  N55,  // first, second
  N56,  // first, second
  N87_xxxxxxx,  // first, second
  N58,  // first, second
  N59,  // first, second
  N90_xxxxxxxxxx,  // first, second
  N5b,  // first, second
  N5c,  // first, second
  N93_xxxxxxxxxxxxx,  // first, second
  N5e,  // first, second
  N5f,  // first, second
  N96_xxxxxxxxxxxxxxxx,  // first, second
  N61,  // first, second
  N62,  // first, second
  N99_xxxxxxxxxxxxxxxxxxx,  // first, second
  N64,  // first, second
  N65,  // first, second
  N102_xxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N67,  // first, second
  N68,  // first, second
  N105_xxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N6a,  // first, second
  N6b,  // first, second
  N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N6d,  // first, second
  N6e,  // first, second
  N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N70,  // first, second
  N71,  // first, second
  N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N73,  // first, second
  N74,  // first, second
  N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N76,  // first, second
  N77,  // first, second
  N120_,  // first, second
  N79,  // first, second
  N7a,  // first, second
  N123_xxx,  // first, second
  N7c,  // first, second
  N7d,  // first, second
  N126_xxxxxx,  // first, second
  N7f,  // first, second
  N80,  // first, second
  N129_xxxxxxxxx
)
PRINTABLE_ENUM(e379, /* A, B */ N0_ /* , */ , N1 /* , */ , N2 /* , */ , N3_xxx /* , */ , N4 /* , */ , N5 /* , */ , N6_xxxxxx /* , */ , N7 /* , */ , N8 /* , */ , N9_xxxxxxxxx /* , */ , Na /* , */ , Nb /* , */ , N12_xxxxxxxxxxxx /* , */ , Nd /* , */ , Ne /* , */ , N15_xxxxxxxxxxxxxxx /* , */ , N10 /* , */ , N11 /* , */ , N18_xxxxxxxxxxxxxxxxxx /* , */ , N13 /* , */ , N14 /* , */ , N21_xxxxxxxxxxxxxxxxxxxxx /* , */ , N16 /* , */ , N17 /* , */ , N24_xxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N19 /* , */ , N1a /* , */ , N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N1c /* , */ , N1d /* , */ , N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N1f /* , */ , N20 /* , */ , N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N22 /* , */ , N23 /* , */ , N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N25 /* , */ , N26 /* , */ , N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N28 /* , */ , N29 /* , */ , N42_xx /* , */ , N2b /* , */ , N2c /* , */ , N45_xxxxx /* , */ , N2e /* , */ , N2f /* , */ , N48_xxxxxxxx /* , */ , N31 /* , */ , N32 /* , */ , N51_xxxxxxxxxxx /* , */ , N34 /* , */ , N35 /* , */ , N54_xxxxxxxxxxxxxx /* , */ , N37 /* , */ , N38 /* , */ , N57_xxxxxxxxxxxxxxxxx /* , */ , N3a /* , */ , N3b /* , */ , N60_xxxxxxxxxxxxxxxxxxxx /* , */ , N3d /* , */ , N3e /* , */ , N63_xxxxxxxxxxxxxxxxxxxxxxx /* , */ , N40 /* , */ , N41 /* , */ , N66_xxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N43 /* , */ , N44 /* , */ , N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N46 /* , */ , N47 /* , */ , N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N49 /* , */ , N4a /* , */ , N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N4c /* , */ , N4d /* , */ , N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N4f /* , */ , N50 /* , */ , N81_x /* , */ , N52 /* , */ , N53 /* , */ , N84_xxxx /* , */ , N55 /* , */ , N56 /* , */ , N87_xxxxxxx /* , */ , N58 /* , */ , N59 /* , */ , N90_xxxxxxxxxx /* , */ , N5b /* , */ , N5c /* , */ , N93_xxxxxxxxxxxxx /* , */ , N5e /* , */ , N5f /* , */ , N96_xxxxxxxxxxxxxxxx /* , */ , N61 /* , */ , N62 /* , */ , N99_xxxxxxxxxxxxxxxxxxx /* , */ , N64 /* , */ , N65 /* , */ , N102_xxxxxxxxxxxxxxxxxxxxxx /* , */ , N67 /* , */ , N68 /* , */ , N105_xxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N6a /* , */ , N6b /* , */ , N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N6d /* , */ , N6e /* , */ , N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N70 /* , */ , N71 /* , */ , N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N73 /* , */ , N74 /* , */ , N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N76 /* , */ , N77 /* , */ , N120_ /* , */ , N79 /* , */ , N7a /* , */ , N123_xxx /* , */ , N7c /* , */ , N7d /* , */ , N126_xxxxxx /* , */ , N7f /* , */ , N80 /* , */ , N129_xxxxxxxxx)
PRINTABLE_ENUM(e380, N0_, N1, N2, N3_xxx, N4, N5, N6_xxxxxx, N7, N8, N9_xxxxxxxxx, Na, Nb, N12_xxxxxxxxxxxx, Nd, Ne, N15_xxxxxxxxxxxxxxx, N10, N11, N18_xxxxxxxxxxxxxxxxxx, N13, N14, N21_xxxxxxxxxxxxxxxxxxxxx, N16, N17, N24_xxxxxxxxxxxxxxxxxxxxxxxx, N19, N1a, N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx, N1c, N1d, N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N1f, N20, N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N22, N23, N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N25, N26, N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N28, N29, N42_xx, N2b, N2c, N45_xxxxx, N2e, N2f, N48_xxxxxxxx, N31, N32, N51_xxxxxxxxxxx, N34, N35, N54_xxxxxxxxxxxxxx, N37, N38, N57_xxxxxxxxxxxxxxxxx, N3a, N3b, N60_xxxxxxxxxxxxxxxxxxxx, N3d, N3e, N63_xxxxxxxxxxxxxxxxxxxxxxx, N40, N41, N66_xxxxxxxxxxxxxxxxxxxxxxxxxx, N43, N44, N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N46, N47, N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N49, N4a, N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N4c, N4d, N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N4f, N50, N81_x, N52, N53, N84_xxxx, N55, N56, N87_xxxxxxx, N58, N59, N90_xxxxxxxxxx, N5b, N5c, N93_xxxxxxxxxxxxx, N5e, N5f, N96_xxxxxxxxxxxxxxxx, N61, N62, N99_xxxxxxxxxxxxxxxxxxx, N64, N65, N102_xxxxxxxxxxxxxxxxxxxxxx, N67, N68, N105_xxxxxxxxxxxxxxxxxxxxxxxxx, N6a, N6b, N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx, N6d, N6e, N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N70, N71, N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N73, N74, N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N76, N77, N120_, N79, N7a, N123_xxx, N7c, N7d, N126_xxxxxx, N7f, N80, N129_xxxxxxxxx, N82, N83, N132_xxxxxxxxxxxx, N85, N86, N135_xxxxxxxxxxxxxxx, N88, N89, N138_xxxxxxxxxxxxxxxxxx, N8b, N8c, N141_xxxxxxxxxxxxxxxxxxxxx, N8e, N8f, N144_xxxxxxxxxxxxxxxxxxxxxxxx, N91, N92, N147_xxxxxxxxxxxxxxxxxxxxxxxxxxx, N94, N95, N150_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N97, N98, N153_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N9a, N9b, N156_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N9d, N9e, N159_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, Na0, Na1, N162_xx, Na3, Na4, N165_xxxxx, Na6, Na7, N168_xxxxxxxx, Na9, Naa, N171_xxxxxxxxxxx, Nac, Nad, N174_xxxxxxxxxxxxxx, Naf, Nb0, N177_xxxxxxxxxxxxxxxxx, Nb2, Nb3, N180_xxxxxxxxxxxxxxxxxxxx, Nb5, Nb6, N183_xxxxxxxxxxxxxxxxxxxxxxx, Nb8, Nb9, N186_xxxxxxxxxxxxxxxxxxxxxxxxxx, Nbb, Nbc, N189_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx, Nbe, Nbf, N192_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, Nc1, Nc2, N195_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, Nc4, Nc5, N198_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, Nc7, Nc8, N201_x, Nca, Ncb, N204_xxxx, Ncd, Nce, N207_xxxxxxx, Nd0, Nd1, N210_xxxxxxxxxx, Nd3, Nd4, N213_xxxxxxxxxxxxx, Nd6, Nd7, N216_xxxxxxxxxxxxxxxx, Nd9, Nda, N219_xxxxxxxxxxxxxxxxxxx, Ndc, Ndd, N222_xxxxxxxxxxxxxxxxxxxxxx, Ndf, Ne0, N225_xxxxxxxxxxxxxxxxxxxxxxxxx, Ne2, Ne3, N228_xxxxxxxxxxxxxxxxxxxxxxxxxxxx, Ne5, Ne6, N231_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, Ne8, Ne9, N234_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, Neb, Nec, N237_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, Nee, Nef, N240_, Nf1, Nf2, N243_xxx, Nf4, Nf5, N246_xxxxxx, Nf7, Nf8, N249_xxxxxxxxx, Nfa, Nfb, N252_xxxxxxxxxxxx, Nfd, Nfe, N255_xxxxxxxxxxxxxxx, N100, N101, N258_xxxxxxxxxxxxxxxxxx, N103, N104, N261_xxxxxxxxxxxxxxxxxxxxx, N106, N107, N264_xxxxxxxxxxxxxxxxxxxxxxxx, N109, N10a, N267_xxxxxxxxxxxxxxxxxxxxxxxxxxx, N10c, N10d, N270_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N10f, N110, N273_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N112, N113, N276_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N115, N116, N279_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx, N118, N119, N282_xx, N11b, N11c, N285_xxxxx, N11e, N11f, N288_xxxxxxxx, N121, N122, N291_xxxxxxxxxxx, N124, N125, N294_xxxxxxxxxxxxxx, N127, N128, N297_xxxxxxxxxxxxxxxxx, N12a, N12b)
PRINTABLE_ENUM(e381, N0_,N1,N2,N3_xxx,N4,N5,N6_xxxxxx,N7,N8,N9_xxxxxxxxx,Na,Nb,N12_xxxxxxxxxxxx,Nd,Ne,N15_xxxxxxxxxxxxxxx,N10,N11,N18_xxxxxxxxxxxxxxxxxx,N13,N14,N21_xxxxxxxxxxxxxxxxxxxxx,N16,N17,N24_xxxxxxxxxxxxxxxxxxxxxxxx,N19,N1a,N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx,N1c,N1d,N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N1f,N20,N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N22,N23,N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N25,N26,N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N28,N29,N42_xx,N2b,N2c,N45_xxxxx,N2e,N2f,N48_xxxxxxxx,N31,N32,N51_xxxxxxxxxxx,N34,N35,N54_xxxxxxxxxxxxxx,N37,N38,N57_xxxxxxxxxxxxxxxxx,N3a,N3b,N60_xxxxxxxxxxxxxxxxxxxx,N3d,N3e,N63_xxxxxxxxxxxxxxxxxxxxxxx,N40,N41,N66_xxxxxxxxxxxxxxxxxxxxxxxxxx,N43,N44,N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N46,N47,N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N49,N4a,N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N4c,N4d,N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N4f,N50,N81_x,N52,N53,N84_xxxx,N55,N56,N87_xxxxxxx,N58,N59,N90_xxxxxxxxxx,N5b,N5c,N93_xxxxxxxxxxxxx,N5e,N5f,N96_xxxxxxxxxxxxxxxx,N61,N62,N99_xxxxxxxxxxxxxxxxxxx,N64,N65,N102_xxxxxxxxxxxxxxxxxxxxxx,N67,N68,N105_xxxxxxxxxxxxxxxxxxxxxxxxx,N6a,N6b,N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx,N6d,N6e,N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N70,N71,N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N73,N74,N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N76,N77,N120_,N79,N7a,N123_xxx,N7c,N7d,N126_xxxxxx,N7f,N80,N129_xxxxxxxxx,N82,N83,N132_xxxxxxxxxxxx,N85,N86,N135_xxxxxxxxxxxxxxx,N88,N89,N138_xxxxxxxxxxxxxxxxxx,N8b,N8c,N141_xxxxxxxxxxxxxxxxxxxxx,N8e,N8f,N144_xxxxxxxxxxxxxxxxxxxxxxxx,N91,N92,N147_xxxxxxxxxxxxxxxxxxxxxxxxxxx,N94,N95,N150_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N97,N98,N153_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N9a,N9b,N156_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N9d,N9e,N159_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,Na0,Na1,N162_xx,Na3,Na4,N165_xxxxx,Na6,Na7,N168_xxxxxxxx,Na9,Naa,N171_xxxxxxxxxxx,Nac,Nad,N174_xxxxxxxxxxxxxx,Naf,Nb0,N177_xxxxxxxxxxxxxxxxx,Nb2,Nb3,N180_xxxxxxxxxxxxxxxxxxxx,Nb5,Nb6,N183_xxxxxxxxxxxxxxxxxxxxxxx,Nb8,Nb9,N186_xxxxxxxxxxxxxxxxxxxxxxxxxx,Nbb,Nbc,N189_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx,Nbe,Nbf,N192_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,Nc1,Nc2,N195_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,Nc4,Nc5,N198_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,Nc7,Nc8,N201_x,Nca,Ncb,N204_xxxx,Ncd,Nce,N207_xxxxxxx,Nd0,Nd1,N210_xxxxxxxxxx,Nd3,Nd4,N213_xxxxxxxxxxxxx,Nd6,Nd7,N216_xxxxxxxxxxxxxxxx,Nd9,Nda,N219_xxxxxxxxxxxxxxxxxxx,Ndc,Ndd,N222_xxxxxxxxxxxxxxxxxxxxxx,Ndf,Ne0,N225_xxxxxxxxxxxxxxxxxxxxxxxxx,Ne2,Ne3,N228_xxxxxxxxxxxxxxxxxxxxxxxxxxxx,Ne5,Ne6,N231_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,Ne8,Ne9,N234_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,Neb,Nec,N237_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,Nee,Nef,N240_,Nf1,Nf2,N243_xxx,Nf4,Nf5,N246_xxxxxx,Nf7,Nf8,N249_xxxxxxxxx,Nfa,Nfb,N252_xxxxxxxxxxxx,Nfd,Nfe,N255_xxxxxxxxxxxxxxx,N100,N101,N258_xxxxxxxxxxxxxxxxxx,N103,N104,N261_xxxxxxxxxxxxxxxxxxxxx,N106,N107,N264_xxxxxxxxxxxxxxxxxxxxxxxx,N109,N10a,N267_xxxxxxxxxxxxxxxxxxxxxxxxxxx,N10c,N10d,N270_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N10f,N110,N273_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N112,N113,N276_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N115,N116,N279_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,N118,N119,N282_xx,N11b,N11c,N285_xxxxx,N11e,N11f,N288_xxxxxxxx,N121,N122,N291_xxxxxxxxxxx,N124,N125,N294_xxxxxxxxxxxxxx,N127,N128,N297_xxxxxxxxxxxxxxxxx,N12a,N12b)
PRINTABLE_ENUM(e382, 
               N0_,
               N1,
               N2,
               N3_xxx,
               N4,
               N5,
               N6_xxxxxx,
               N7,
               N8,
               N9_xxxxxxxxx,
               Na,
               Nb,
               N12_xxxxxxxxxxxx,
               Nd,
               Ne,
               N15_xxxxxxxxxxxxxxx,
               N10,
               N11,
               N18_xxxxxxxxxxxxxxxxxx,
               N13,
               N14,
               N21_xxxxxxxxxxxxxxxxxxxxx,
               N16,
               N17,
               N24_xxxxxxxxxxxxxxxxxxxxxxxx,
               N19,
               N1a,
               N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N1c,
               N1d,
               N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N1f,
               N20,
               N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N22,
               N23,
               N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N25,
               N26,
               N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N28,
               N29,
               N42_xx,
               N2b,
               N2c,
               N45_xxxxx,
               N2e,
               N2f,
               N48_xxxxxxxx,
               N31,
               N32,
               N51_xxxxxxxxxxx,
               N34,
               N35,
               N54_xxxxxxxxxxxxxx,
               N37,
               N38,
               N57_xxxxxxxxxxxxxxxxx,
               N3a,
               N3b,
               N60_xxxxxxxxxxxxxxxxxxxx,
               N3d,
               N3e,
               N63_xxxxxxxxxxxxxxxxxxxxxxx,
               N40,
               N41,
               N66_xxxxxxxxxxxxxxxxxxxxxxxxxx,
               N43,
               N44,
               N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N46,
               N47,
               N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N49,
               N4a,
               N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N4c,
               N4d,
               N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N4f,
               N50,
               N81_x,
               N52,
               N53,
               N84_xxxx,
               N55,
               N56,
               N87_xxxxxxx,
               N58,
               N59,
               N90_xxxxxxxxxx,
               N5b,
               N5c,
               N93_xxxxxxxxxxxxx,
               N5e,
               N5f,
               N96_xxxxxxxxxxxxxxxx,
               N61,
               N62,
               N99_xxxxxxxxxxxxxxxxxxx,
               N64,
               N65,
               N102_xxxxxxxxxxxxxxxxxxxxxx,
               N67,
               N68,
               N105_xxxxxxxxxxxxxxxxxxxxxxxxx,
               N6a,
               N6b,
               N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N6d,
               N6e,
               N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N70,
               N71,
               N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N73,
               N74,
               N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N76,
               N77,
               N120_,
               N79,
               N7a,
               N123_xxx,
               N7c,
               N7d,
               N126_xxxxxx,
               N7f,
               N80,
               N129_xxxxxxxxx,
               N82,
               N83,
               N132_xxxxxxxxxxxx,
               N85,
               N86,
               N135_xxxxxxxxxxxxxxx,
               N88,
               N89,
               N138_xxxxxxxxxxxxxxxxxx,
               N8b,
               N8c,
               N141_xxxxxxxxxxxxxxxxxxxxx,
               N8e,
               N8f,
               N144_xxxxxxxxxxxxxxxxxxxxxxxx,
               N91,
               N92,
               N147_xxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N94,
               N95,
               N150_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N97,
               N98,
               N153_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N9a,
               N9b,
               N156_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N9d,
               N9e,
               N159_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               Na0,
               Na1,
               N162_xx,
               Na3,
               Na4,
               N165_xxxxx,
               Na6,
               Na7,
               N168_xxxxxxxx,
               Na9,
               Naa,
               N171_xxxxxxxxxxx,
               Nac,
               Nad,
               N174_xxxxxxxxxxxxxx,
               Naf,
               Nb0,
               N177_xxxxxxxxxxxxxxxxx,
               Nb2,
               Nb3,
               N180_xxxxxxxxxxxxxxxxxxxx,
               Nb5,
               Nb6,
               N183_xxxxxxxxxxxxxxxxxxxxxxx,
               Nb8,
               Nb9,
               N186_xxxxxxxxxxxxxxxxxxxxxxxxxx,
               Nbb,
               Nbc,
               N189_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               Nbe,
               Nbf,
               N192_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               Nc1,
               Nc2,
               N195_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               Nc4,
               Nc5,
               N198_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               Nc7,
               Nc8,
               N201_x,
               Nca,
               Ncb,
               N204_xxxx,
               Ncd,
               Nce,
               N207_xxxxxxx,
               Nd0,
               Nd1,
               N210_xxxxxxxxxx,
               Nd3,
               Nd4,
               N213_xxxxxxxxxxxxx,
               Nd6,
               Nd7,
               N216_xxxxxxxxxxxxxxxx,
               Nd9,
               Nda,
               N219_xxxxxxxxxxxxxxxxxxx,
               Ndc,
               Ndd,
               N222_xxxxxxxxxxxxxxxxxxxxxx,
               Ndf,
               Ne0,
               N225_xxxxxxxxxxxxxxxxxxxxxxxxx,
               Ne2,
               Ne3,
               N228_xxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               Ne5,
               Ne6,
               N231_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               Ne8,
               Ne9,
               N234_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               Neb,
               Nec,
               N237_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               Nee,
               Nef,
               N240_,
               Nf1,
               Nf2,
               N243_xxx,
               Nf4,
               Nf5,
               N246_xxxxxx,
               Nf7,
               Nf8,
               N249_xxxxxxxxx,
               Nfa,
               Nfb,
               N252_xxxxxxxxxxxx,
               Nfd,
               Nfe,
               N255_xxxxxxxxxxxxxxx,
               N100,
               N101,
               N258_xxxxxxxxxxxxxxxxxx,
               N103,
               N104,
               N261_xxxxxxxxxxxxxxxxxxxxx,
               N106,
               N107,
               N264_xxxxxxxxxxxxxxxxxxxxxxxx,
               N109,
               N10a,
               N267_xxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N10c,
               N10d,
               N270_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N10f,
               N110,
               N273_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N112,
               N113,
               N276_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N115,
               N116,
               N279_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
               N118,
               N119,
               N282_xx,
               N11b,
               N11c,
               N285_xxxxx,
               N11e,
               N11f,
               N288_xxxxxxxx,
               N121,
               N122,
               N291_xxxxxxxxxxx,
               N124,
               N125,
               N294_xxxxxxxxxxxxxx,
               N127,
               N128,
               N297_xxxxxxxxxxxxxxxxx,
               N12a,
               N12b)
PRINTABLE_ENUM(e383,   N0_  ,   N1  ,   N2  ,   N3_xxx  ,   N4  ,   N5  ,   N6_xxxxxx  ,   N7  ,   N8  ,   N9_xxxxxxxxx  ,   Na  ,   Nb  ,   N12_xxxxxxxxxxxx  ,   Nd  ,   Ne  ,   N15_xxxxxxxxxxxxxxx  ,   N10  ,   N11  ,   N18_xxxxxxxxxxxxxxxxxx  ,   N13  ,   N14  ,   N21_xxxxxxxxxxxxxxxxxxxxx  ,   N16  ,   N17  ,   N24_xxxxxxxxxxxxxxxxxxxxxxxx  ,   N19  ,   N1a  ,   N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N1c  ,   N1d  ,   N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N1f  ,   N20  ,   N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N22  ,   N23  ,   N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N25  ,   N26  ,   N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N28  ,   N29  ,   N42_xx  ,   N2b  ,   N2c  ,   N45_xxxxx  ,   N2e  ,   N2f  ,   N48_xxxxxxxx  ,   N31  ,   N32  ,   N51_xxxxxxxxxxx  ,   N34  ,   N35  ,   N54_xxxxxxxxxxxxxx  ,   N37  ,   N38  ,   N57_xxxxxxxxxxxxxxxxx  ,   N3a  ,   N3b  ,   N60_xxxxxxxxxxxxxxxxxxxx  ,   N3d  ,   N3e  ,   N63_xxxxxxxxxxxxxxxxxxxxxxx  ,   N40  ,   N41  ,   N66_xxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N43  ,   N44  ,   N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N46  ,   N47  ,   N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N49  ,   N4a  ,   N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N4c  ,   N4d  ,   N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N4f  ,   N50  ,   N81_x  ,   N52  ,   N53  ,   N84_xxxx  ,   N55  ,   N56  ,   N87_xxxxxxx  ,   N58  ,   N59  ,   N90_xxxxxxxxxx  ,   N5b  ,   N5c  ,   N93_xxxxxxxxxxxxx  ,   N5e  ,   N5f  ,   N96_xxxxxxxxxxxxxxxx  ,   N61  ,   N62  ,   N99_xxxxxxxxxxxxxxxxxxx  ,   N64  ,   N65  ,   N102_xxxxxxxxxxxxxxxxxxxxxx  ,   N67  ,   N68  ,   N105_xxxxxxxxxxxxxxxxxxxxxxxxx  ,   N6a  ,   N6b  ,   N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N6d  ,   N6e  ,   N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N70  ,   N71  ,   N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N73  ,   N74  ,   N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N76  ,   N77  ,   N120_  ,   N79  ,   N7a  ,   N123_xxx  ,   N7c  ,   N7d  ,   N126_xxxxxx  ,   N7f  ,   N80  ,   N129_xxxxxxxxx  ,   N82  ,   N83  ,   N132_xxxxxxxxxxxx  ,   N85  ,   N86  ,   N135_xxxxxxxxxxxxxxx  ,   N88  ,   N89  ,   N138_xxxxxxxxxxxxxxxxxx  ,   N8b  ,   N8c  ,   N141_xxxxxxxxxxxxxxxxxxxxx  ,   N8e  ,   N8f  ,   N144_xxxxxxxxxxxxxxxxxxxxxxxx  ,   N91  ,   N92  ,   N147_xxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N94  ,   N95  ,   N150_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N97  ,   N98  ,   N153_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N9a  ,   N9b  ,   N156_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N9d  ,   N9e  ,   N159_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   Na0  ,   Na1  ,   N162_xx  ,   Na3  ,   Na4  ,   N165_xxxxx  ,   Na6  ,   Na7  ,   N168_xxxxxxxx  ,   Na9  ,   Naa  ,   N171_xxxxxxxxxxx  ,   Nac  ,   Nad  ,   N174_xxxxxxxxxxxxxx  ,   Naf  ,   Nb0  ,   N177_xxxxxxxxxxxxxxxxx  ,   Nb2  ,   Nb3  ,   N180_xxxxxxxxxxxxxxxxxxxx  ,   Nb5  ,   Nb6  ,   N183_xxxxxxxxxxxxxxxxxxxxxxx  ,   Nb8  ,   Nb9  ,   N186_xxxxxxxxxxxxxxxxxxxxxxxxxx  ,   Nbb  ,   Nbc  ,   N189_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   Nbe  ,   Nbf  ,   N192_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   Nc1  ,   Nc2  ,   N195_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   Nc4  ,   Nc5  ,   N198_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   Nc7  ,   Nc8  ,   N201_x  ,   Nca  ,   Ncb  ,   N204_xxxx  ,   Ncd  ,   Nce  ,   N207_xxxxxxx  ,   Nd0  ,   Nd1  ,   N210_xxxxxxxxxx  ,   Nd3  ,   Nd4  ,   N213_xxxxxxxxxxxxx  ,   Nd6  ,   Nd7  ,   N216_xxxxxxxxxxxxxxxx  ,   Nd9  ,   Nda  ,   N219_xxxxxxxxxxxxxxxxxxx  ,   Ndc  ,   Ndd  ,   N222_xxxxxxxxxxxxxxxxxxxxxx  ,   Ndf  ,   Ne0  ,   N225_xxxxxxxxxxxxxxxxxxxxxxxxx  ,   Ne2  ,   Ne3  ,   N228_xxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   Ne5  ,   Ne6  ,   N231_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   Ne8  ,   Ne9  ,   N234_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   Neb  ,   Nec  ,   N237_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   Nee  ,   Nef  ,   N240_  ,   Nf1  ,   Nf2  ,   N243_xxx  ,   Nf4  ,   Nf5  ,   N246_xxxxxx  ,   Nf7  ,   Nf8  ,   N249_xxxxxxxxx  ,   Nfa  ,   Nfb  ,   N252_xxxxxxxxxxxx  ,   Nfd  ,   Nfe  ,   N255_xxxxxxxxxxxxxxx  ,   N100  ,   N101  ,   N258_xxxxxxxxxxxxxxxxxx  ,   N103  ,   N104  ,   N261_xxxxxxxxxxxxxxxxxxxxx  ,   N106  ,   N107  ,   N264_xxxxxxxxxxxxxxxxxxxxxxxx  ,   N109  ,   N10a  ,   N267_xxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N10c  ,   N10d  ,   N270_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N10f  ,   N110  ,   N273_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N112  ,   N113  ,   N276_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N115  ,   N116  ,   N279_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx  ,   N118  ,   N119  ,   N282_xx  ,   N11b  ,   N11c  ,   N285_xxxxx  ,   N11e  ,   N11f  ,   N288_xxxxxxxx  ,   N121  ,   N122  ,   N291_xxxxxxxxxxx  ,   N124  ,   N125  ,   N294_xxxxxxxxxxxxxx  ,   N127  ,   N128  ,   N297_xxxxxxxxxxxxxxxxx  ,   N12a  ,   N12b  )
PRINTABLE_ENUM(e384, 
	N0_,
	N1,
	N2,
	N3_xxx,
	N4,
	N5,
	N6_xxxxxx,
	N7,
	N8,
	N9_xxxxxxxxx,
	Na,
	Nb,
	N12_xxxxxxxxxxxx,
	Nd,
	Ne,
	N15_xxxxxxxxxxxxxxx,
	N10,
	N11,
	N18_xxxxxxxxxxxxxxxxxx,
	N13,
	N14,
	N21_xxxxxxxxxxxxxxxxxxxxx,
	N16,
	N17,
	N24_xxxxxxxxxxxxxxxxxxxxxxxx,
	N19,
	N1a,
	N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N1c,
	N1d,
	N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N1f,
	N20,
	N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N22,
	N23,
	N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N25,
	N26,
	N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N28,
	N29,
	N42_xx,
	N2b,
	N2c,
	N45_xxxxx,
	N2e,
	N2f,
	N48_xxxxxxxx,
	N31,
	N32,
	N51_xxxxxxxxxxx,
	N34,
	N35,
	N54_xxxxxxxxxxxxxx,
	N37,
	N38,
	N57_xxxxxxxxxxxxxxxxx,
	N3a,
	N3b,
	N60_xxxxxxxxxxxxxxxxxxxx,
	N3d,
	N3e,
	N63_xxxxxxxxxxxxxxxxxxxxxxx,
	N40,
	N41,
	N66_xxxxxxxxxxxxxxxxxxxxxxxxxx,
	N43,
	N44,
	N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N46,
	N47,
	N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N49,
	N4a,
	N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N4c,
	N4d,
	N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N4f,
	N50,
	N81_x,
	N52,
	N53,
	N84_xxxx,
	N55,
	N56,
	N87_xxxxxxx,
	N58,
	N59,
	N90_xxxxxxxxxx,
	N5b,
	N5c,
	N93_xxxxxxxxxxxxx,
	N5e,
	N5f,
	N96_xxxxxxxxxxxxxxxx,
	N61,
	N62,
	N99_xxxxxxxxxxxxxxxxxxx,
	N64,
	N65,
	N102_xxxxxxxxxxxxxxxxxxxxxx,
	N67,
	N68,
	N105_xxxxxxxxxxxxxxxxxxxxxxxxx,
	N6a,
	N6b,
	N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N6d,
	N6e,
	N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N70,
	N71,
	N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N73,
	N74,
	N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N76,
	N77,
	N120_,
	N79,
	N7a,
	N123_xxx,
	N7c,
	N7d,
	N126_xxxxxx,
	N7f,
	N80,
	N129_xxxxxxxxx,
	N82,
	N83,
	N132_xxxxxxxxxxxx,
	N85,
	N86,
	N135_xxxxxxxxxxxxxxx,
	N88,
	N89,
	N138_xxxxxxxxxxxxxxxxxx,
	N8b,
	N8c,
	N141_xxxxxxxxxxxxxxxxxxxxx,
	N8e,
	N8f,
	N144_xxxxxxxxxxxxxxxxxxxxxxxx,
	N91,
	N92,
	N147_xxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N94,
	N95,
	N150_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N97,
	N98,
	N153_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N9a,
	N9b,
	N156_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N9d,
	N9e,
	N159_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	Na0,
	Na1,
	N162_xx,
	Na3,
	Na4,
	N165_xxxxx,
	Na6,
	Na7,
	N168_xxxxxxxx,
	Na9,
	Naa,
	N171_xxxxxxxxxxx,
	Nac,
	Nad,
	N174_xxxxxxxxxxxxxx,
	Naf,
	Nb0,
	N177_xxxxxxxxxxxxxxxxx,
	Nb2,
	Nb3,
	N180_xxxxxxxxxxxxxxxxxxxx,
	Nb5,
	Nb6,
	N183_xxxxxxxxxxxxxxxxxxxxxxx,
	Nb8,
	Nb9,
	N186_xxxxxxxxxxxxxxxxxxxxxxxxxx,
	Nbb,
	Nbc,
	N189_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	Nbe,
	Nbf,
	N192_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	Nc1,
	Nc2,
	N195_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	Nc4,
	Nc5,
	N198_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	Nc7,
	Nc8,
	N201_x,
	Nca,
	Ncb,
	N204_xxxx,
	Ncd,
	Nce,
	N207_xxxxxxx,
	Nd0,
	Nd1,
	N210_xxxxxxxxxx,
	Nd3,
	Nd4,
	N213_xxxxxxxxxxxxx,
	Nd6,
	Nd7,
	N216_xxxxxxxxxxxxxxxx,
	Nd9,
	Nda,
	N219_xxxxxxxxxxxxxxxxxxx,
	Ndc,
	Ndd,
	N222_xxxxxxxxxxxxxxxxxxxxxx,
	Ndf,
	Ne0,
	N225_xxxxxxxxxxxxxxxxxxxxxxxxx,
	Ne2,
	Ne3,
	N228_xxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	Ne5,
	Ne6,
	N231_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	Ne8,
	Ne9,
	N234_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	Neb,
	Nec,
	N237_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	Nee,
	Nef,
	N240_,
	Nf1,
	Nf2,
	N243_xxx,
	Nf4,
	Nf5,
	N246_xxxxxx,
	Nf7,
	Nf8,
	N249_xxxxxxxxx,
	Nfa,
	Nfb,
	N252_xxxxxxxxxxxx,
	Nfd,
	Nfe,
	N255_xxxxxxxxxxxxxxx,
	N100,
	N101,
	N258_xxxxxxxxxxxxxxxxxx,
	N103,
	N104,
	N261_xxxxxxxxxxxxxxxxxxxxx,
	N106,
	N107,
	N264_xxxxxxxxxxxxxxxxxxxxxxxx,
	N109,
	N10a,
	N267_xxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N10c,
	N10d,
	N270_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N10f,
	N110,
	N273_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N112,
	N113,
	N276_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N115,
	N116,
	N279_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,
	N118,
	N119,
	N282_xx,
	N11b,
	N11c,
	N285_xxxxx,
	N11e,
	N11f,
	N288_xxxxxxxx,
	N121,
	N122,
	N291_xxxxxxxxxxx,
	N124,
	N125,
	N294_xxxxxxxxxxxxxx,
	N127,
	N128,
	N297_xxxxxxxxxxxxxxxxx,
	N12a,
	N12b,
)
PRINTABLE_ENUM(e385, 
  N0_,  // first, second
  N1,  // first, second
  N2,  // first, second
  N3_xxx,  // first, second
  N4,  // first, second
  N5,  // first, second
  N6_xxxxxx,  // first, second
  N7,  // first, second
  N8,  // first, second
  N9_xxxxxxxxx,  // first, second
  Na,  // first, second
  Nb,  // first, second
  N12_xxxxxxxxxxxx,  // first, second
  Nd,  // first, second
  Ne,  // first, second
  N15_xxxxxxxxxxxxxxx,  // first, second
  N10,  // first, second
  N11,  // first, second
  N18_xxxxxxxxxxxxxxxxxx,  // first, second
  N13,  // first, second
  N14,  // first, second
  N21_xxxxxxxxxxxxxxxxxxxxx,  // first, second
  N16,  // first, second
  N17,  // first, second
  N24_xxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N19,  // first, second
  N1a,  // first, second
  N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N1c,  // first, second
  N1d,  // first, second
  N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N1f,  // first, second
  N20,  // first, second
  N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N22,  // first, second
  N23,  // first, second
  N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N25,  // first, second
  N26,  // first, second
  N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N28,  // first, second
  N29,  // first, second
  N42_xx,  // first, second
  N2b,  // first, second
  N2c,  // first, second
  N45_xxxxx,  // first, second
  N2e,  // first, second
  N2f,  // first, second
  N48_xxxxxxxx,  // first, second
  N31,  // first, second
  N32,  // first, second
  N51_xxxxxxxxxxx,  // first, second
  N34,  // first, second
  N35,  // first, second
  N54_xxxxxxxxxxxxxx,  // first, second
  N37,  // first, second
  N38,  // first, second
  N57_xxxxxxxxxxxxxxxxx,  // first, second
  N3a,  // first, second
  N3b,  // first, second
  N60_xxxxxxxxxxxxxxxxxxxx,  // first, second
  N3d,  // first, second
  N3e,  // first, second
  N63_xxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N40,  // first, second
  N41,  // first, second
  N66_xxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N43,  // first, second
  N44,  // first, second
  N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N46,  // first, second
  N47,  // first, second
  N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N49,  // first, second
  N4a,  // first, second
  N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N4c,  // first, second
  N4d,  // first, second
  N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N4f,  // first, second
  N50,  // first, second
  N81_x,  // first, second
  N52,  // first, second
  N53,  // first, second
  N84_xxxx,  // first, second
  N55,  // first, second
  N56,  // first, second
  N87_xxxxxxx,  // first, second
  N58,  // first, second
  N59,  // first, second
  N90_xxxxxxxxxx,  // first, second
  N5b,  // first, second
  N5c,  // first, second
  N93_xxxxxxxxxxxxx,  // first, second
  N5e,  // first, second
  N5f,  // first, second
  N96_xxxxxxxxxxxxxxxx,  // first, second
  N61,  // first, second
  N62,  // first, second
  N99_xxxxxxxxxxxxxxxxxxx,  // first, second
  N64,  // first, second
  N65,  // first, second
  N102_xxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N67,  // first, second
  N68,  // first, second
  N105_xxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N6a,  // first, second
  N6b,  // first, second
  N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N6d,  // first, second
  N6e,  // first, second
  N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N70,  // first, second
  N71,  // first, second
  N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N73,  // first, second
  N74,  // first, second
  N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N76,  // first, second
  N77,  // first, second
  N120_,  // first, second
  N79,  // first, second
  N7a,  // first, second
  N123_xxx,  // first, second
  N7c,  // first, second
  N7d,  // first, second
  N126_xxxxxx,  // first, second
  N7f,  // first, second
  N80,  // first, second
  N129_xxxxxxxxx,  // first, second
  N82,  // first, second
  N83,  // first, second
  N132_xxxxxxxxxxxx,  // first, second
  N85,  // first, second
  N86,  // first, second
  N135_xxxxxxxxxxxxxxx,  // first, second
  N88,  // first, second
  N89,  // first, second
  N138_xxxxxxxxxxxxxxxxxx,  // first, second
  N8b,  // first, second
  N8c,  // first, second
  N141_xxxxxxxxxxxxxxxxxxxxx,  // first, second
  N8e,  // first, second
  N8f,  // first, second
  N144_xxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N91,  // first, second
  N92,  // first, second
  N147_xxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N94,  // first, second
  N95,  // first, second
  N150_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N97,  // first, second
  N98,  // first, second
  N153_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N9a,  // first, second
  N9b,  // first, second
  N156_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N9d,  // first, second
  N9e,  // first, second
  N159_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  Na0,  // first, second
  Na1,  // first, second
  N162_xx,  // first, second
  Na3,  // first, second
  Na4,  // first, second
  N165_xxxxx,  // first, second
  Na6,  // first, second
  Na7,  // first, second
  N168_xxxxxxxx,  // first, second
  Na9,  // first, second
  Naa,  // first, second
  N171_xxxxxxxxxxx,  // first, second
  Nac,  // first, second
  Nad,  // first, second
  N174_xxxxxxxxxxxxxx,  // first, second
  Naf,  // first, second
  Nb0,  // first, second
  N177_xxxxxxxxxxxxxxxxx,  // first, second
  Nb2,  // first, second
  Nb3,  // first, second
  N180_xxxxxxxxxxxxxxxxxxxx,  // first, second
  Nb5,  // first, second
  Nb6,  // first, second
  N183_xxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  Nb8,  // first, second
  Nb9,  // first, second
  N186_xxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  Nbb,  // first, second
  Nbc,  // first, second
  N189_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  Nbe,  // first, second
  Nbf,  // first, second
  N192_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  Nc1,  // first, second
  Nc2,  // first, second
  N195_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  Nc4,  // first, second
  Nc5,  // first, second
  N198_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  Nc7,  // first, second
  Nc8,  // first, second
  N201_x,  // first, second
  Nca,  // first, second
  Ncb,  // first, second
  N204_xxxx,  // first, second
  Ncd,  // first, second
  Nce,  // first, second
  N207_xxxxxxx,  // first, second
  Nd0,  // first, second
  Nd1,  // first, second
  N210_xxxxxxxxxx,  // first, second
  Nd3,  // first, second
  Nd4,  // first, second
  N213_xxxxxxxxxxxxx,  // first, second
  Nd6,  // first, second
  Nd7,  // first, second
  N216_xxxxxxxxxxxxxxxx,  // first, second
  Nd9,  // first, second
  Nda,  // first, second
  N219_xxxxxxxxxxxxxxxxxxx,  // first, second
  Ndc,  // first, second
  Ndd,  // first, second
  N222_xxxxxxxxxxxxxxxxxxxxxx,  // first, second
  Ndf,  // first, second
  Ne0,  // first, second
  N225_xxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  Ne2,  // first, second
  Ne3,  // first, second
  N228_xxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  Ne5,  // first, second
  Ne6,  // first, second
  N231_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  Ne8,  // first, second
  Ne9,  // first, second
  N234_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  Neb,  // first, second
  Nec,  // first, second
  N237_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  Nee,  // first, second
  Nef,  // first, second
  N240_,  // first, second
  Nf1,  // first, second
  Nf2,  // first, second
  N243_xxx,  // first, second
  Nf4,  // first, second
  Nf5,  // first, second
  N246_xxxxxx,  // first, second
  Nf7,  // first, second
  Nf8,  // first, second
  N249_xxxxxxxxx,  // first, second
  Nfa,  // first, second
  Nfb,  // first, second
  N252_xxxxxxxxxxxx,  // first, second
  Nfd,  // first, second
  Nfe,  // first, second
  N255_xxxxxxxxxxxxxxx,  // first, second
  N100,  // first, second
  N101,  // first, second
  N258_xxxxxxxxxxxxxxxxxx,  // first, second
  N103,  // first, second
  N104,  // first, second
  N261_xxxxxxxxxxxxxxxxxxxxx,  // first, second
  N106,  // first, second
  N107,  // first, second
  N264_xxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N109,  // first, second
  N10a,  // first, second
  N267_xxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N10c,  // first, second
  N10d,  // first, second
  N270_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N10f,  // first, second
  N110,  // first, second
  N273_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N112,  // first, second
  N113,  // first, second
  N276_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N115,  // first, second
  N116,  // first, second
  N279_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx,  // first, second
  N118,  // first, second
  N119,  // first, second
  N282_xx,  // first, second
  N11b,  // first, second
  N11c,  // first, second
  N285_xxxxx,  // first, second
  N11e,  // first, second
  N11f,  // first, second
  N288_xxxxxxxx,  // first, second
  N121,  // first, second
  N122,  // first, second
  N291_xxxxxxxxxxx,  // first, second
  N124,  // first, second
  N125,  // first, second
  N294_xxxxxxxxxxxxxx,  // first, second
  N127,  // first, second
  N128,  // first, second
  N297_xxxxxxxxxxxxxxxxx,  // first, second
  N12a,  // first, second
  N12b
)
PRINTABLE_ENUM(e386, /* A, B */ N0_ /* , */ , N1 /* , */ , N2 /* , */ , N3_xxx /* , */ , N4 /* , */ , N5 /* , */ , N6_xxxxxx /* , */ , N7 /* , */ , N8 /* , */ , N9_xxxxxxxxx /* , */ , Na /* , */ , Nb /* , */ , N12_xxxxxxxxxxxx /* , */ , Nd /* , */ , Ne /* , */ , N15_xxxxxxxxxxxxxxx /* , */ , N10 /* , */ , N11 /* , */ , N18_xxxxxxxxxxxxxxxxxx /* , */ , N13 /* , */ , N14 /* , */ , N21_xxxxxxxxxxxxxxxxxxxxx /* , */ , N16 /* , */ , N17 /* , */ , N24_xxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N19 /* , */ , N1a /* , */ , N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N1c /* , */ , N1d /* , */ , N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N1f /* , */ , N20 /* , */ , N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N22 /* , */ , N23 /* , */ , N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N25 /* , */ , N26 /* , */ , N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N28 /* , */ , N29 /* , */ , N42_xx /* , */ , N2b /* , */ , N2c /* , */ , N45_xxxxx /* , */ , N2e /* , */ , N2f /* , */ , N48_xxxxxxxx /* , */ , N31 /* , */ , N32 /* , */ , N51_xxxxxxxxxxx /* , */ , N34 /* , */ , N35 /* , */ , N54_xxxxxxxxxxxxxx /* , */ , N37 /* , */ , N38 /* , */ , N57_xxxxxxxxxxxxxxxxx /* , */ , N3a /* , */ , N3b /* , */ , N60_xxxxxxxxxxxxxxxxxxxx /* , */ , N3d /* , */ , N3e /* , */ , N63_xxxxxxxxxxxxxxxxxxxxxxx /* , */ , N40 /* , */ , N41 /* , */ , N66_xxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N43 /* , */ , N44 /* , */ , N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N46 /* , */ , N47 /* , */ , N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N49 /* , */ , N4a /* , */ , N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N4c /* , */ , N4d /* , */ , N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N4f /* , */ , N50 /* , */ , N81_x /* , */ , N52 /* , */ , N53 /* , */ , N84_xxxx /* , */ , N55 /* , */ , N56 /* , */ , N87_xxxxxxx /* , */ , N58 /* , */ , N59 /* , */ , N90_xxxxxxxxxx /* , */ , N5b /* , */ , N5c /* , */ , N93_xxxxxxxxxxxxx /* , */ , N5e /* , */ , N5f /* , */ , N96_xxxxxxxxxxxxxxxx /* , */ , N61 /* , */ , N62 /* , */ , N99_xxxxxxxxxxxxxxxxxxx /* , */ , N64 /* , */ , N65 /* , */ , N102_xxxxxxxxxxxxxxxxxxxxxx /* , */ , N67 /* , */ , N68 /* , */ , N105_xxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N6a /* , */ , N6b /* , */ , N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N6d /* , */ , N6e /* , */ , N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N70 /* , */ , N71 /* , */ , N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N73 /* , */ , N74 /* , */ , N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N76 /* , */ , N77 /* , */ , N120_ /* , */ , N79 /* , */ , N7a /* , */ , N123_xxx /* , */ , N7c /* , */ , N7d /* , */ , N126_xxxxxx /* , */ , N7f /* , */ , N80 /* , */ , N129_xxxxxxxxx /* , */ , N82 /* , */ , N83 /* , */ , N132_xxxxxxxxxxxx /* , */ , N85 /* , */ , N86 /* , */ , N135_xxxxxxxxxxxxxxx /* , */ , N88 /* , */ , N89 /* , */ , N138_xxxxxxxxxxxxxxxxxx /* , */ , N8b /* , */ , N8c /* , */ , N141_xxxxxxxxxxxxxxxxxxxxx /* , */ , N8e /* , */ , N8f /* , */ , N144_xxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N91 /* , */ , N92 /* , */ , N147_xxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N94 /* , */ , N95 /* , */ , N150_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N97 /* , */ , N98 /* , */ , N153_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N9a /* , */ , N9b /* , */ , N156_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N9d /* , */ , N9e /* , */ , N159_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , Na0 /* , */ , Na1 /* , */ , N162_xx /* , */ , Na3 /* , */ , Na4 /* , */ , N165_xxxxx /* , */ , Na6 /* , */ , Na7 /* , */ , N168_xxxxxxxx /* , */ , Na9 /* , */ , Naa /* , */ , N171_xxxxxxxxxxx /* , */ , Nac /* , */ , Nad /* , */ , N174_xxxxxxxxxxxxxx /* , */ , Naf /* , */ , Nb0 /* , */ , N177_xxxxxxxxxxxxxxxxx /* , */ , Nb2 /* , */ , Nb3 /* , */ , N180_xxxxxxxxxxxxxxxxxxxx /* , */ , Nb5 /* , */ , Nb6 /* , */ , N183_xxxxxxxxxxxxxxxxxxxxxxx /* , */ , Nb8 /* , */ , Nb9 /* , */ , N186_xxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , Nbb /* , */ , Nbc /* , */ , N189_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , Nbe /* , */ , Nbf /* , */ , N192_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , Nc1 /* , */ , Nc2 /* , */ , N195_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , Nc4 /* , */ , Nc5 /* , */ , N198_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , Nc7 /* , */ , Nc8 /* , */ , N201_x /* , */ , Nca /* , */ , Ncb /* , */ , N204_xxxx /* , */ , Ncd /* , */ , Nce /* , */ , N207_xxxxxxx /* , */ , Nd0 /* , */ , Nd1 /* , */ , N210_xxxxxxxxxx /* , */ , Nd3 /* , */ , Nd4 /* , */ , N213_xxxxxxxxxxxxx /* , */ , Nd6 /* , */ , Nd7 /* , */ , N216_xxxxxxxxxxxxxxxx /* , */ , Nd9 /* , */ , Nda /* , */ , N219_xxxxxxxxxxxxxxxxxxx /* , */ , Ndc /* , */ , Ndd /* , */ , N222_xxxxxxxxxxxxxxxxxxxxxx /* , */ , Ndf /* , */ , Ne0 /* , */ , N225_xxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , Ne2 /* , */ , Ne3 /* , */ , N228_xxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , Ne5 /* , */ , Ne6 /* , */ , N231_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , Ne8 /* , */ , Ne9 /* , */ , N234_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , Neb /* , */ , Nec /* , */ , N237_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , Nee /* , */ , Nef /* , */ , N240_ /* , */ , Nf1 /* , */ , Nf2 /* , */ , N243_xxx /* , */ , Nf4 /* , */ , Nf5 /* , */ , N246_xxxxxx /* , */ , Nf7 /* , */ , Nf8 /* , */ , N249_xxxxxxxxx /* , */ , Nfa /* , */ , Nfb /* , */ , N252_xxxxxxxxxxxx /* , */ , Nfd /* , */ , Nfe /* , */ , N255_xxxxxxxxxxxxxxx /* , */ , N100 /* , */ , N101 /* , */ , N258_xxxxxxxxxxxxxxxxxx /* , */ , N103 /* , */ , N104 /* , */ , N261_xxxxxxxxxxxxxxxxxxxxx /* , */ , N106 /* , */ , N107 /* , */ , N264_xxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N109 /* , */ , N10a /* , */ , N267_xxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N10c /* , */ , N10d /* , */ , N270_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N10f /* , */ , N110 /* , */ , N273_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N112 /* , */ , N113 /* , */ , N276_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N115 /* , */ , N116 /* , */ , N279_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx /* , */ , N118 /* , */ , N119 /* , */ , N282_xx /* , */ , N11b /* , */ , N11c /* , */ , N285_xxxxx /* , */ , N11e /* , */ , N11f /* , */ , N288_xxxxxxxx /* , */ , N121 /* , */ , N122 /* , */ , N291_xxxxxxxxxxx /* , */ , N124 /* , */ , N125 /* , */ , N294_xxxxxxxxxxxxxx /* , */ , N127 /* , */ , N128 /* , */ , N297_xxxxxxxxxxxxxxxxx /* , */ , N12a /* , */ , N12b)
PRINTABLE_ENUM(e387, _, __x, x_, _0, Z9, aVeryLongEnumeratorNameThatGoesOnAndOnUntilItIsLongerThanAnySmallBuffer_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq, a)
PRINTABLE_ENUM(e388, _,__x,x_,_0,Z9,aVeryLongEnumeratorNameThatGoesOnAndOnUntilItIsLongerThanAnySmallBuffer_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq,a)
PRINTABLE_ENUM(e389, 
               _,
               __x,
               x_,
               _0,
               Z9,
               aVeryLongEnumeratorNameThatGoesOnAndOnUntilItIsLongerThanAnySmallBuffer_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq,
               a)
PRINTABLE_ENUM(e390,   _  ,   __x  ,   x_  ,   _0  ,   Z9  ,   aVeryLongEnumeratorNameThatGoesOnAndOnUntilItIsLongerThanAnySmallBuffer_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq  ,   a  )
PRINTABLE_ENUM(e391, 
	_,
	__x,
	x_,
	_0,
	Z9,
	aVeryLongEnumeratorNameThatGoesOnAndOnUntilItIsLongerThanAnySmallBuffer_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq,
	a,
)
PRINTABLE_ENUM(e392, 
  _,  // first, second
  __x,  // first, second
  x_,  // first, second
  _0,  // first, second
  Z9,  // first, second
  aVeryLongEnumeratorNameThatGoesOnAndOnUntilItIsLongerThanAnySmallBuffer_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq,  // first, second
  a
)
PRINTABLE_ENUM(e393, /* A, B */ _ /* , */ , __x /* , */ , x_ /* , */ , _0 /* , */ , Z9 /* , */ , aVeryLongEnumeratorNameThatGoesOnAndOnUntilItIsLongerThanAnySmallBuffer_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq /* , */ , a)
#define ENUM_CASES \
  CASE(e0, "A") \
  CASE(e1, "A") \
  CASE(e2, "A") \
  CASE(e3, "A") \
  CASE(e4, "A") \
  CASE(e5, "A") \
  CASE(e6, "A") \
  CASE(e7, "AB") \
  CASE(e8, "AB") \
  CASE(e9, "AB") \
  CASE(e10, "AB") \
  CASE(e11, "AB") \
  CASE(e12, "AB") \
  CASE(e13, "AB") \
  CASE(e14, "B_1") \
  CASE(e15, "B_1") \
  CASE(e16, "B_1") \
  CASE(e17, "B_1") \
  CASE(e18, "B_1") \
  CASE(e19, "B_1") \
  CASE(e20, "B_1") \
  CASE(e21, "ABC") \
  CASE(e22, "ABC") \
  CASE(e23, "ABC") \
  CASE(e24, "ABC") \
  CASE(e25, "ABC") \
  CASE(e26, "ABC") \
  CASE(e27, "ABC") \
  CASE(e28, "A", "AB") \
  CASE(e29, "A", "AB") \
  CASE(e30, "A", "AB") \
  CASE(e31, "A", "AB") \
  CASE(e32, "A", "AB") \
  CASE(e33, "A", "AB") \
  CASE(e34, "A", "AB") \
  CASE(e35, "A", "B_1") \
  CASE(e36, "A", "B_1") \
  CASE(e37, "A", "B_1") \
  CASE(e38, "A", "B_1") \
  CASE(e39, "A", "B_1") \
  CASE(e40, "A", "B_1") \
  CASE(e41, "A", "B_1") \
  CASE(e42, "A", "ABC") \
  CASE(e43, "A", "ABC") \
  CASE(e44, "A", "ABC") \
  CASE(e45, "A", "ABC") \
  CASE(e46, "A", "ABC") \
  CASE(e47, "A", "ABC") \
  CASE(e48, "A", "ABC") \
  CASE(e49, "AB", "A") \
  CASE(e50, "AB", "A") \
  CASE(e51, "AB", "A") \
  CASE(e52, "AB", "A") \
  CASE(e53, "AB", "A") \
  CASE(e54, "AB", "A") \
  CASE(e55, "AB", "A") \
  CASE(e56, "AB", "B_1") \
  CASE(e57, "AB", "B_1") \
  CASE(e58, "AB", "B_1") \
  CASE(e59, "AB", "B_1") \
  CASE(e60, "AB", "B_1") \
  CASE(e61, "AB", "B_1") \
  CASE(e62, "AB", "B_1") \
  CASE(e63, "AB", "ABC") \
  CASE(e64, "AB", "ABC") \
  CASE(e65, "AB", "ABC") \
  CASE(e66, "AB", "ABC") \
  CASE(e67, "AB", "ABC") \
  CASE(e68, "AB", "ABC") \
  CASE(e69, "AB", "ABC") \
  CASE(e70, "B_1", "A") \
  CASE(e71, "B_1", "A") \
  CASE(e72, "B_1", "A") \
  CASE(e73, "B_1", "A") \
  CASE(e74, "B_1", "A") \
  CASE(e75, "B_1", "A") \
  CASE(e76, "B_1", "A") \
  CASE(e77, "B_1", "AB") \
  CASE(e78, "B_1", "AB") \
  CASE(e79, "B_1", "AB") \
  CASE(e80, "B_1", "AB") \
  CASE(e81, "B_1", "AB") \
  CASE(e82, "B_1", "AB") \
  CASE(e83, "B_1", "AB") \
  CASE(e84, "B_1", "ABC") \
  CASE(e85, "B_1", "ABC") \
  CASE(e86, "B_1", "ABC") \
  CASE(e87, "B_1", "ABC") \
  CASE(e88, "B_1", "ABC") \
  CASE(e89, "B_1", "ABC") \
  CASE(e90, "B_1", "ABC") \
  CASE(e91, "ABC", "A") \
  CASE(e92, "ABC", "A") \
  CASE(e93, "ABC", "A") \
  CASE(e94, "ABC", "A") \
  CASE(e95, "ABC", "A") \
  CASE(e96, "ABC", "A") \
  CASE(e97, "ABC", "A") \
  CASE(e98, "ABC", "AB") \
  CASE(e99, "ABC", "AB") \
  CASE(e100, "ABC", "AB") \
  CASE(e101, "ABC", "AB") \
  CASE(e102, "ABC", "AB") \
  CASE(e103, "ABC", "AB") \
  CASE(e104, "ABC", "AB") \
  CASE(e105, "ABC", "B_1") \
  CASE(e106, "ABC", "B_1") \
  CASE(e107, "ABC", "B_1") \
  CASE(e108, "ABC", "B_1") \
  CASE(e109, "ABC", "B_1") \
  CASE(e110, "ABC", "B_1") \
  CASE(e111, "ABC", "B_1") \
  CASE(e112, "A", "AB", "B_1") \
  CASE(e113, "A", "AB", "B_1") \
  CASE(e114, "A", "AB", "B_1") \
  CASE(e115, "A", "AB", "B_1") \
  CASE(e116, "A", "AB", "B_1") \
  CASE(e117, "A", "AB", "B_1") \
  CASE(e118, "A", "AB", "B_1") \
  CASE(e119, "A", "AB", "ABC") \
  CASE(e120, "A", "AB", "ABC") \
  CASE(e121, "A", "AB", "ABC") \
  CASE(e122, "A", "AB", "ABC") \
  CASE(e123, "A", "AB", "ABC") \
  CASE(e124, "A", "AB", "ABC") \
  CASE(e125, "A", "AB", "ABC") \
  CASE(e126, "A", "B_1", "AB") \
  CASE(e127, "A", "B_1", "AB") \
  CASE(e128, "A", "B_1", "AB") \
  CASE(e129, "A", "B_1", "AB") \
  CASE(e130, "A", "B_1", "AB") \
  CASE(e131, "A", "B_1", "AB") \
  CASE(e132, "A", "B_1", "AB") \
  CASE(e133, "A", "B_1", "ABC") \
  CASE(e134, "A", "B_1", "ABC") \
  CASE(e135, "A", "B_1", "ABC") \
  CASE(e136, "A", "B_1", "ABC") \
  CASE(e137, "A", "B_1", "ABC") \
  CASE(e138, "A", "B_1", "ABC") \
  CASE(e139, "A", "B_1", "ABC") \
  CASE(e140, "A", "ABC", "AB") \
  CASE(e141, "A", "ABC", "AB") \
  CASE(e142, "A", "ABC", "AB") \
  CASE(e143, "A", "ABC", "AB") \
  CASE(e144, "A", "ABC", "AB") \
  CASE(e145, "A", "ABC", "AB") \
  CASE(e146, "A", "ABC", "AB") \
  CASE(e147, "A", "ABC", "B_1") \
  CASE(e148, "A", "ABC", "B_1") \
  CASE(e149, "A", "ABC", "B_1") \
  CASE(e150, "A", "ABC", "B_1") \
  CASE(e151, "A", "ABC", "B_1") \
  CASE(e152, "A", "ABC", "B_1") \
  CASE(e153, "A", "ABC", "B_1") \
  CASE(e154, "AB", "A", "B_1") \
  CASE(e155, "AB", "A", "B_1") \
  CASE(e156, "AB", "A", "B_1") \
  CASE(e157, "AB", "A", "B_1") \
  CASE(e158, "AB", "A", "B_1") \
  CASE(e159, "AB", "A", "B_1") \
  CASE(e160, "AB", "A", "B_1") \
  CASE(e161, "AB", "A", "ABC") \
  CASE(e162, "AB", "A", "ABC") \
  CASE(e163, "AB", "A", "ABC") \
  CASE(e164, "AB", "A", "ABC") \
  CASE(e165, "AB", "A", "ABC") \
  CASE(e166, "AB", "A", "ABC") \
  CASE(e167, "AB", "A", "ABC") \
  CASE(e168, "AB", "B_1", "A") \
  CASE(e169, "AB", "B_1", "A") \
  CASE(e170, "AB", "B_1", "A") \
  CASE(e171, "AB", "B_1", "A") \
  CASE(e172, "AB", "B_1", "A") \
  CASE(e173, "AB", "B_1", "A") \
  CASE(e174, "AB", "B_1", "A") \
  CASE(e175, "AB", "B_1", "ABC") \
  CASE(e176, "AB", "B_1", "ABC") \
  CASE(e177, "AB", "B_1", "ABC") \
  CASE(e178, "AB", "B_1", "ABC") \
  CASE(e179, "AB", "B_1", "ABC") \
  CASE(e180, "AB", "B_1", "ABC") \
  CASE(e181, "AB", "B_1", "ABC") \
  CASE(e182, "AB", "ABC", "A") \
  CASE(e183, "AB", "ABC", "A") \
  CASE(e184, "AB", "ABC", "A") \
  CASE(e185, "AB", "ABC", "A") \
  CASE(e186, "AB", "ABC", "A") \
  CASE(e187, "AB", "ABC", "A") \
  CASE(e188, "AB", "ABC", "A") \
  CASE(e189, "AB", "ABC", "B_1") \
  CASE(e190, "AB", "ABC", "B_1") \
  CASE(e191, "AB", "ABC", "B_1") \
  CASE(e192, "AB", "ABC", "B_1") \
  CASE(e193, "AB", "ABC", "B_1") \
  CASE(e194, "AB", "ABC", "B_1") \
  CASE(e195, "AB", "ABC", "B_1") \
  CASE(e196, "B_1", "A", "AB") \
  CASE(e197, "B_1", "A", "AB") \
  CASE(e198, "B_1", "A", "AB") \
  CASE(e199, "B_1", "A", "AB") \
  CASE(e200, "B_1", "A", "AB") \
  CASE(e201, "B_1", "A", "AB") \
  CASE(e202, "B_1", "A", "AB") \
  CASE(e203, "B_1", "A", "ABC") \
  CASE(e204, "B_1", "A", "ABC") \
  CASE(e205, "B_1", "A", "ABC") \
  CASE(e206, "B_1", "A", "ABC") \
  CASE(e207, "B_1", "A", "ABC") \
  CASE(e208, "B_1", "A", "ABC") \
  CASE(e209, "B_1", "A", "ABC") \
  CASE(e210, "B_1", "AB", "A") \
  CASE(e211, "B_1", "AB", "A") \
  CASE(e212, "B_1", "AB", "A") \
  CASE(e213, "B_1", "AB", "A") \
  CASE(e214, "B_1", "AB", "A") \
  CASE(e215, "B_1", "AB", "A") \
  CASE(e216, "B_1", "AB", "A") \
  CASE(e217, "B_1", "AB", "ABC") \
  CASE(e218, "B_1", "AB", "ABC") \
  CASE(e219, "B_1", "AB", "ABC") \
  CASE(e220, "B_1", "AB", "ABC") \
  CASE(e221, "B_1", "AB", "ABC") \
  CASE(e222, "B_1", "AB", "ABC") \
  CASE(e223, "B_1", "AB", "ABC") \
  CASE(e224, "B_1", "ABC", "A") \
  CASE(e225, "B_1", "ABC", "A") \
  CASE(e226, "B_1", "ABC", "A") \
  CASE(e227, "B_1", "ABC", "A") \
  CASE(e228, "B_1", "ABC", "A") \
  CASE(e229, "B_1", "ABC", "A") \
  CASE(e230, "B_1", "ABC", "A") \
  CASE(e231, "B_1", "ABC", "AB") \
  CASE(e232, "B_1", "ABC", "AB") \
  CASE(e233, "B_1", "ABC", "AB") \
  CASE(e234, "B_1", "ABC", "AB") \
  CASE(e235, "B_1", "ABC", "AB") \
  CASE(e236, "B_1", "ABC", "AB") \
  CASE(e237, "B_1", "ABC", "AB") \
  CASE(e238, "ABC", "A", "AB") \
  CASE(e239, "ABC", "A", "AB") \
  CASE(e240, "ABC", "A", "AB") \
  CASE(e241, "ABC", "A", "AB") \
  CASE(e242, "ABC", "A", "AB") \
  CASE(e243, "ABC", "A", "AB") \
  CASE(e244, "ABC", "A", "AB") \
  CASE(e245, "ABC", "A", "B_1") \
  CASE(e246, "ABC", "A", "B_1") \
  CASE(e247, "ABC", "A", "B_1") \
  CASE(e248, "ABC", "A", "B_1") \
  CASE(e249, "ABC", "A", "B_1") \
  CASE(e250, "ABC", "A", "B_1") \
  CASE(e251, "ABC", "A", "B_1") \
  CASE(e252, "ABC", "AB", "A") \
  CASE(e253, "ABC", "AB", "A") \
  CASE(e254, "ABC", "AB", "A") \
  CASE(e255, "ABC", "AB", "A") \
  CASE(e256, "ABC", "AB", "A") \
  CASE(e257, "ABC", "AB", "A") \
  CASE(e258, "ABC", "AB", "A") \
  CASE(e259, "ABC", "AB", "B_1") \
  CASE(e260, "ABC", "AB", "B_1") \
  CASE(e261, "ABC", "AB", "B_1") \
  CASE(e262, "ABC", "AB", "B_1") \
  CASE(e263, "ABC", "AB", "B_1") \
  CASE(e264, "ABC", "AB", "B_1") \
  CASE(e265, "ABC", "AB", "B_1") \
  CASE(e266, "ABC", "B_1", "A") \
  CASE(e267, "ABC", "B_1", "A") \
  CASE(e268, "ABC", "B_1", "A") \
  CASE(e269, "ABC", "B_1", "A") \
  CASE(e270, "ABC", "B_1", "A") \
  CASE(e271, "ABC", "B_1", "A") \
  CASE(e272, "ABC", "B_1", "A") \
  CASE(e273, "ABC", "B_1", "AB") \
  CASE(e274, "ABC", "B_1", "AB") \
  CASE(e275, "ABC", "B_1", "AB") \
  CASE(e276, "ABC", "B_1", "AB") \
  CASE(e277, "ABC", "B_1", "AB") \
  CASE(e278, "ABC", "B_1", "AB") \
  CASE(e279, "ABC", "B_1", "AB") \
  CASE(e280, "A", "AB", "B_1", "ABC") \
  CASE(e281, "A", "AB", "B_1", "ABC") \
  CASE(e282, "A", "AB", "B_1", "ABC") \
  CASE(e283, "A", "AB", "ABC", "B_1") \
  CASE(e284, "A", "AB", "ABC", "B_1") \
  CASE(e285, "A", "AB", "ABC", "B_1") \
  CASE(e286, "A", "B_1", "AB", "ABC") \
  CASE(e287, "A", "B_1", "AB", "ABC") \
  CASE(e288, "A", "B_1", "AB", "ABC") \
  CASE(e289, "A", "B_1", "ABC", "AB") \
  CASE(e290, "A", "B_1", "ABC", "AB") \
  CASE(e291, "A", "B_1", "ABC", "AB") \
  CASE(e292, "A", "ABC", "AB", "B_1") \
  CASE(e293, "A", "ABC", "AB", "B_1") \
  CASE(e294, "A", "ABC", "AB", "B_1") \
  CASE(e295, "A", "ABC", "B_1", "AB") \
  CASE(e296, "A", "ABC", "B_1", "AB") \
  CASE(e297, "A", "ABC", "B_1", "AB") \
  CASE(e298, "AB", "A", "B_1", "ABC") \
  CASE(e299, "AB", "A", "B_1", "ABC") \
  CASE(e300, "AB", "A", "B_1", "ABC") \
  CASE(e301, "AB", "A", "ABC", "B_1") \
  CASE(e302, "AB", "A", "ABC", "B_1") \
  CASE(e303, "AB", "A", "ABC", "B_1") \
  CASE(e304, "AB", "B_1", "A", "ABC") \
  CASE(e305, "AB", "B_1", "A", "ABC") \
  CASE(e306, "AB", "B_1", "A", "ABC") \
  CASE(e307, "AB", "B_1", "ABC", "A") \
  CASE(e308, "AB", "B_1", "ABC", "A") \
  CASE(e309, "AB", "B_1", "ABC", "A") \
  CASE(e310, "AB", "ABC", "A", "B_1") \
  CASE(e311, "AB", "ABC", "A", "B_1") \
  CASE(e312, "AB", "ABC", "A", "B_1") \
  CASE(e313, "AB", "ABC", "B_1", "A") \
  CASE(e314, "AB", "ABC", "B_1", "A") \
  CASE(e315, "AB", "ABC", "B_1", "A") \
  CASE(e316, "B_1", "A", "AB", "ABC") \
  CASE(e317, "B_1", "A", "AB", "ABC") \
  CASE(e318, "B_1", "A", "AB", "ABC") \
  CASE(e319, "B_1", "A", "ABC", "AB") \
  CASE(e320, "B_1", "A", "ABC", "AB") \
  CASE(e321, "B_1", "A", "ABC", "AB") \
  CASE(e322, "B_1", "AB", "A", "ABC") \
  CASE(e323, "B_1", "AB", "A", "ABC") \
  CASE(e324, "B_1", "AB", "A", "ABC") \
  CASE(e325, "B_1", "AB", "ABC", "A") \
  CASE(e326, "B_1", "AB", "ABC", "A") \
  CASE(e327, "B_1", "AB", "ABC", "A") \
  CASE(e328, "B_1", "ABC", "A", "AB") \
  CASE(e329, "B_1", "ABC", "A", "AB") \
  CASE(e330, "B_1", "ABC", "A", "AB") \
  CASE(e331, "B_1", "ABC", "AB", "A") \
  CASE(e332, "B_1", "ABC", "AB", "A") \
  CASE(e333, "B_1", "ABC", "AB", "A") \
  CASE(e334, "ABC", "A", "AB", "B_1") \
  CASE(e335, "ABC", "A", "AB", "B_1") \
  CASE(e336, "ABC", "A", "AB", "B_1") \
  CASE(e337, "ABC", "A", "B_1", "AB") \
  CASE(e338, "ABC", "A", "B_1", "AB") \
  CASE(e339, "ABC", "A", "B_1", "AB") \
  CASE(e340, "ABC", "AB", "A", "B_1") \
  CASE(e341, "ABC", "AB", "A", "B_1") \
  CASE(e342, "ABC", "AB", "A", "B_1") \
  CASE(e343, "ABC", "AB", "B_1", "A") \
  CASE(e344, "ABC", "AB", "B_1", "A") \
  CASE(e345, "ABC", "AB", "B_1", "A") \
  CASE(e346, "ABC", "B_1", "A", "AB") \
  CASE(e347, "ABC", "B_1", "A", "AB") \
  CASE(e348, "ABC", "B_1", "A", "AB") \
  CASE(e349, "ABC", "B_1", "AB", "A") \
  CASE(e350, "ABC", "B_1", "AB", "A") \
  CASE(e351, "ABC", "B_1", "AB", "A") \
  CASE(e352, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx") \
  CASE(e353, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx") \
  CASE(e354, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx") \
  CASE(e355, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx") \
  CASE(e356, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx") \
  CASE(e357, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx") \
  CASE(e358, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx") \
  CASE(e359, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx") \
  CASE(e360, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx") \
  CASE(e361, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx") \
  CASE(e362, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx") \
  CASE(e363, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx") \
  CASE(e364, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx") \
  CASE(e365, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx") \
  CASE(e366, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1f", "N20", "N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N22", "N23", "N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N25", "N26", "N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N28", "N29", "N42_xx", "N2b", "N2c", "N45_xxxxx", "N2e", "N2f", "N48_xxxxxxxx", "N31", "N32", "N51_xxxxxxxxxxx", "N34", "N35", "N54_xxxxxxxxxxxxxx", "N37", "N38", "N57_xxxxxxxxxxxxxxxxx", "N3a", "N3b", "N60_xxxxxxxxxxxxxxxxxxxx", "N3d", "N3e", "N63_xxxxxxxxxxxxxxxxxxxxxxx") \
  CASE(e367, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1f", "N20", "N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N22", "N23", "N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N25", "N26", "N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N28", "N29", "N42_xx", "N2b", "N2c", "N45_xxxxx", "N2e", "N2f", "N48_xxxxxxxx", "N31", "N32", "N51_xxxxxxxxxxx", "N34", "N35", "N54_xxxxxxxxxxxxxx", "N37", "N38", "N57_xxxxxxxxxxxxxxxxx", "N3a", "N3b", "N60_xxxxxxxxxxxxxxxxxxxx", "N3d", "N3e", "N63_xxxxxxxxxxxxxxxxxxxxxxx") \
  CASE(e368, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1f", "N20", "N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N22", "N23", "N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N25", "N26", "N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N28", "N29", "N42_xx", "N2b", "N2c", "N45_xxxxx", "N2e", "N2f", "N48_xxxxxxxx", "N31", "N32", "N51_xxxxxxxxxxx", "N34", "N35", "N54_xxxxxxxxxxxxxx", "N37", "N38", "N57_xxxxxxxxxxxxxxxxx", "N3a", "N3b", "N60_xxxxxxxxxxxxxxxxxxxx", "N3d", "N3e", "N63_xxxxxxxxxxxxxxxxxxxxxxx") \
  CASE(e369, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1f", "N20", "N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N22", "N23", "N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N25", "N26", "N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N28", "N29", "N42_xx", "N2b", "N2c", "N45_xxxxx", "N2e", "N2f", "N48_xxxxxxxx", "N31", "N32", "N51_xxxxxxxxxxx", "N34", "N35", "N54_xxxxxxxxxxxxxx", "N37", "N38", "N57_xxxxxxxxxxxxxxxxx", "N3a", "N3b", "N60_xxxxxxxxxxxxxxxxxxxx", "N3d", "N3e", "N63_xxxxxxxxxxxxxxxxxxxxxxx") \
  CASE(e370, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1f", "N20", "N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N22", "N23", "N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N25", "N26", "N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N28", "N29", "N42_xx", "N2b", "N2c", "N45_xxxxx", "N2e", "N2f", "N48_xxxxxxxx", "N31", "N32", "N51_xxxxxxxxxxx", "N34", "N35", "N54_xxxxxxxxxxxxxx", "N37", "N38", "N57_xxxxxxxxxxxxxxxxx", "N3a", "N3b", "N60_xxxxxxxxxxxxxxxxxxxx", "N3d", "N3e", "N63_xxxxxxxxxxxxxxxxxxxxxxx") \
  CASE(e371, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1f", "N20", "N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N22", "N23", "N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N25", "N26", "N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N28", "N29", "N42_xx", "N2b", "N2c", "N45_xxxxx", "N2e", "N2f", "N48_xxxxxxxx", "N31", "N32", "N51_xxxxxxxxxxx", "N34", "N35", "N54_xxxxxxxxxxxxxx", "N37", "N38", "N57_xxxxxxxxxxxxxxxxx", "N3a", "N3b", "N60_xxxxxxxxxxxxxxxxxxxx", "N3d", "N3e", "N63_xxxxxxxxxxxxxxxxxxxxxxx") \
  CASE(e372, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1f", "N20", "N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N22", "N23", "N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N25", "N26", "N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N28", "N29", "N42_xx", "N2b", "N2c", "N45_xxxxx", "N2e", "N2f", "N48_xxxxxxxx", "N31", "N32", "N51_xxxxxxxxxxx", "N34", "N35", "N54_xxxxxxxxxxxxxx", "N37", "N38", "N57_xxxxxxxxxxxxxxxxx", "N3a", "N3b", "N60_xxxxxxxxxxxxxxxxxxxx", "N3d", "N3e", "N63_xxxxxxxxxxxxxxxxxxxxxxx") \
  CASE(e373, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1f", "N20", "N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N22", "N23", "N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N25", "N26", "N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N28", "N29", "N42_xx", "N2b", "N2c", "N45_xxxxx", "N2e", "N2f", "N48_xxxxxxxx", "N31", "N32", "N51_xxxxxxxxxxx", "N34", "N35", "N54_xxxxxxxxxxxxxx", "N37", "N38", "N57_xxxxxxxxxxxxxxxxx", "N3a", "N3b", "N60_xxxxxxxxxxxxxxxxxxxx", "N3d", "N3e", "N63_xxxxxxxxxxxxxxxxxxxxxxx", "N40", "N41", "N66_xxxxxxxxxxxxxxxxxxxxxxxxxx", "N43", "N44", "N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N46", "N47", "N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N49", "N4a", "N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4c", "N4d", "N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4f", "N50", "N81_x", "N52", "N53", "N84_xxxx", "N55", "N56", "N87_xxxxxxx", "N58", "N59", "N90_xxxxxxxxxx", "N5b", "N5c", "N93_xxxxxxxxxxxxx", "N5e", "N5f", "N96_xxxxxxxxxxxxxxxx", "N61", "N62", "N99_xxxxxxxxxxxxxxxxxxx", "N64", "N65", "N102_xxxxxxxxxxxxxxxxxxxxxx", "N67", "N68", "N105_xxxxxxxxxxxxxxxxxxxxxxxxx", "N6a", "N6b", "N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N6d", "N6e", "N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N70", "N71", "N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N73", "N74", "N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N76", "N77", "N120_", "N79", "N7a", "N123_xxx", "N7c", "N7d", "N126_xxxxxx", "N7f", "N80", "N129_xxxxxxxxx") \
  CASE(e374, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1f", "N20", "N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N22", "N23", "N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N25", "N26", "N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N28", "N29", "N42_xx", "N2b", "N2c", "N45_xxxxx", "N2e", "N2f", "N48_xxxxxxxx", "N31", "N32", "N51_xxxxxxxxxxx", "N34", "N35", "N54_xxxxxxxxxxxxxx", "N37", "N38", "N57_xxxxxxxxxxxxxxxxx", "N3a", "N3b", "N60_xxxxxxxxxxxxxxxxxxxx", "N3d", "N3e", "N63_xxxxxxxxxxxxxxxxxxxxxxx", "N40", "N41", "N66_xxxxxxxxxxxxxxxxxxxxxxxxxx", "N43", "N44", "N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N46", "N47", "N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N49", "N4a", "N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4c", "N4d", "N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4f", "N50", "N81_x", "N52", "N53", "N84_xxxx", "N55", "N56", "N87_xxxxxxx", "N58", "N59", "N90_xxxxxxxxxx", "N5b", "N5c", "N93_xxxxxxxxxxxxx", "N5e", "N5f", "N96_xxxxxxxxxxxxxxxx", "N61", "N62", "N99_xxxxxxxxxxxxxxxxxxx", "N64", "N65", "N102_xxxxxxxxxxxxxxxxxxxxxx", "N67", "N68", "N105_xxxxxxxxxxxxxxxxxxxxxxxxx", "N6a", "N6b", "N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N6d", "N6e", "N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N70", "N71", "N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N73", "N74", "N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N76", "N77", "N120_", "N79", "N7a", "N123_xxx", "N7c", "N7d", "N126_xxxxxx", "N7f", "N80", "N129_xxxxxxxxx") \
  CASE(e375, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1f", "N20", "N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N22", "N23", "N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N25", "N26", "N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N28", "N29", "N42_xx", "N2b", "N2c", "N45_xxxxx", "N2e", "N2f", "N48_xxxxxxxx", "N31", "N32", "N51_xxxxxxxxxxx", "N34", "N35", "N54_xxxxxxxxxxxxxx", "N37", "N38", "N57_xxxxxxxxxxxxxxxxx", "N3a", "N3b", "N60_xxxxxxxxxxxxxxxxxxxx", "N3d", "N3e", "N63_xxxxxxxxxxxxxxxxxxxxxxx", "N40", "N41", "N66_xxxxxxxxxxxxxxxxxxxxxxxxxx", "N43", "N44", "N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N46", "N47", "N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N49", "N4a", "N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4c", "N4d", "N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4f", "N50", "N81_x", "N52", "N53", "N84_xxxx", "N55", "N56", "N87_xxxxxxx", "N58", "N59", "N90_xxxxxxxxxx", "N5b", "N5c", "N93_xxxxxxxxxxxxx", "N5e", "N5f", "N96_xxxxxxxxxxxxxxxx", "N61", "N62", "N99_xxxxxxxxxxxxxxxxxxx", "N64", "N65", "N102_xxxxxxxxxxxxxxxxxxxxxx", "N67", "N68", "N105_xxxxxxxxxxxxxxxxxxxxxxxxx", "N6a", "N6b", "N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N6d", "N6e", "N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N70", "N71", "N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N73", "N74", "N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N76", "N77", "N120_", "N79", "N7a", "N123_xxx", "N7c", "N7d", "N126_xxxxxx", "N7f", "N80", "N129_xxxxxxxxx") \
  CASE(e376, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1f", "N20", "N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N22", "N23", "N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N25", "N26", "N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N28", "N29", "N42_xx", "N2b", "N2c", "N45_xxxxx", "N2e", "N2f", "N48_xxxxxxxx", "N31", "N32", "N51_xxxxxxxxxxx", "N34", "N35", "N54_xxxxxxxxxxxxxx", "N37", "N38", "N57_xxxxxxxxxxxxxxxxx", "N3a", "N3b", "N60_xxxxxxxxxxxxxxxxxxxx", "N3d", "N3e", "N63_xxxxxxxxxxxxxxxxxxxxxxx", "N40", "N41", "N66_xxxxxxxxxxxxxxxxxxxxxxxxxx", "N43", "N44", "N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N46", "N47", "N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N49", "N4a", "N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4c", "N4d", "N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4f", "N50", "N81_x", "N52", "N53", "N84_xxxx", "N55", "N56", "N87_xxxxxxx", "N58", "N59", "N90_xxxxxxxxxx", "N5b", "N5c", "N93_xxxxxxxxxxxxx", "N5e", "N5f", "N96_xxxxxxxxxxxxxxxx", "N61", "N62", "N99_xxxxxxxxxxxxxxxxxxx", "N64", "N65", "N102_xxxxxxxxxxxxxxxxxxxxxx", "N67", "N68", "N105_xxxxxxxxxxxxxxxxxxxxxxxxx", "N6a", "N6b", "N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N6d", "N6e", "N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N70", "N71", "N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N73", "N74", "N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N76", "N77", "N120_", "N79", "N7a", "N123_xxx", "N7c", "N7d", "N126_xxxxxx", "N7f", "N80", "N129_xxxxxxxxx") \
  CASE(e377, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1f", "N20", "N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N22", "N23", "N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N25", "N26", "N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N28", "N29", "N42_xx", "N2b", "N2c", "N45_xxxxx", "N2e", "N2f", "N48_xxxxxxxx", "N31", "N32", "N51_xxxxxxxxxxx", "N34", "N35", "N54_xxxxxxxxxxxxxx", "N37", "N38", "N57_xxxxxxxxxxxxxxxxx", "N3a", "N3b", "N60_xxxxxxxxxxxxxxxxxxxx", "N3d", "N3e", "N63_xxxxxxxxxxxxxxxxxxxxxxx", "N40", "N41", "N66_xxxxxxxxxxxxxxxxxxxxxxxxxx", "N43", "N44", "N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N46", "N47", "N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N49", "N4a", "N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4c", "N4d", "N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4f", "N50", "N81_x", "N52", "N53", "N84_xxxx", "N55", "N56", "N87_xxxxxxx", "N58", "N59", "N90_xxxxxxxxxx", "N5b", "N5c", "N93_xxxxxxxxxxxxx", "N5e", "N5f", "N96_xxxxxxxxxxxxxxxx", "N61", "N62", "N99_xxxxxxxxxxxxxxxxxxx", "N64", "N65", "N102_xxxxxxxxxxxxxxxxxxxxxx", "N67", "N68", "N105_xxxxxxxxxxxxxxxxxxxxxxxxx", "N6a", "N6b", "N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N6d", "N6e", "N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N70", "N71", "N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N73", "N74", "N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N76", "N77", "N120_", "N79", "N7a", "N123_xxx", "N7c", "N7d", "N126_xxxxxx", "N7f", "N80", "N129_xxxxxxxxx") \
  CASE(e378, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1f", "N20", "N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N22", "N23", "N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N25", "N26", "N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N28", "N29", "N42_xx", "N2b", "N2c", "N45_xxxxx", "N2e", "N2f", "N48_xxxxxxxx", "N31", "N32", "N51_xxxxxxxxxxx", "N34", "N35", "N54_xxxxxxxxxxxxxx", "N37", "N38", "N57_xxxxxxxxxxxxxxxxx", "N3a", "N3b", "N60_xxxxxxxxxxxxxxxxxxxx", "N3d", "N3e", "N63_xxxxxxxxxxxxxxxxxxxxxxx", "N40", "N41", "N66_xxxxxxxxxxxxxxxxxxxxxxxxxx", "N43", "N44", "N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N46", "N47", "N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N49", "N4a", "N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4c", "N4d", "N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4f", "N50", "N81_x", "N52", "N53", "N84_xxxx", "N55", "N56", "N87_xxxxxxx", "N58", "N59", "N90_xxxxxxxxxx", "N5b", "N5c", "N93_xxxxxxxxxxxxx", "N5e", "N5f", "N96_xxxxxxxxxxxxxxxx", "N61", "N62", "N99_xxxxxxxxxxxxxxxxxxx", "N64", "N65", "N102_xxxxxxxxxxxxxxxxxxxxxx", "N67", "N68", "N105_xxxxxxxxxxxxxxxxxxxxxxxxx", "N6a", "N6b", "N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N6d", "N6e", "N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N70", "N71", "N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N73", "N74", "N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N76", "N77", "N120_", "N79", "N7a", "N123_xxx", "N7c", "N7d", "N126_xxxxxx", "N7f", "N80", "N129_xxxxxxxxx") \
  CASE(e379, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1f", "N20", "N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N22", "N23", "N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N25", "N26", "N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N28", "N29", "N42_xx", "N2b", "N2c", "N45_xxxxx", "N2e", "N2f", "N48_xxxxxxxx", "N31", "N32", "N51_xxxxxxxxxxx", "N34", "N35", "N54_xxxxxxxxxxxxxx", "N37", "N38", "N57_xxxxxxxxxxxxxxxxx", "N3a", "N3b", "N60_xxxxxxxxxxxxxxxxxxxx", "N3d", "N3e", "N63_xxxxxxxxxxxxxxxxxxxxxxx", "N40", "N41", "N66_xxxxxxxxxxxxxxxxxxxxxxxxxx", "N43", "N44", "N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N46", "N47", "N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N49", "N4a", "N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4c", "N4d", "N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4f", "N50", "N81_x", "N52", "N53", "N84_xxxx", "N55", "N56", "N87_xxxxxxx", "N58", "N59", "N90_xxxxxxxxxx", "N5b", "N5c", "N93_xxxxxxxxxxxxx", "N5e", "N5f", "N96_xxxxxxxxxxxxxxxx", "N61", "N62", "N99_xxxxxxxxxxxxxxxxxxx", "N64", "N65", "N102_xxxxxxxxxxxxxxxxxxxxxx", "N67", "N68", "N105_xxxxxxxxxxxxxxxxxxxxxxxxx", "N6a", "N6b", "N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N6d", "N6e", "N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N70", "N71", "N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N73", "N74", "N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N76", "N77", "N120_", "N79", "N7a", "N123_xxx", "N7c", "N7d", "N126_xxxxxx", "N7f", "N80", "N129_xxxxxxxxx") \
  CASE(e380, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1f", "N20", "N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N22", "N23", "N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N25", "N26", "N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N28", "N29", "N42_xx", "N2b", "N2c", "N45_xxxxx", "N2e", "N2f", "N48_xxxxxxxx", "N31", "N32", "N51_xxxxxxxxxxx", "N34", "N35", "N54_xxxxxxxxxxxxxx", "N37", "N38", "N57_xxxxxxxxxxxxxxxxx", "N3a", "N3b", "N60_xxxxxxxxxxxxxxxxxxxx", "N3d", "N3e", "N63_xxxxxxxxxxxxxxxxxxxxxxx", "N40", "N41", "N66_xxxxxxxxxxxxxxxxxxxxxxxxxx", "N43", "N44", "N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N46", "N47", "N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N49", "N4a", "N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4c", "N4d", "N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4f", "N50", "N81_x", "N52", "N53", "N84_xxxx", "N55", "N56", "N87_xxxxxxx", "N58", "N59", "N90_xxxxxxxxxx", "N5b", "N5c", "N93_xxxxxxxxxxxxx", "N5e", "N5f", "N96_xxxxxxxxxxxxxxxx", "N61", "N62", "N99_xxxxxxxxxxxxxxxxxxx", "N64", "N65", "N102_xxxxxxxxxxxxxxxxxxxxxx", "N67", "N68", "N105_xxxxxxxxxxxxxxxxxxxxxxxxx", "N6a", "N6b", "N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N6d", "N6e", "N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N70", "N71", "N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N73", "N74", "N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N76", "N77", "N120_", "N79", "N7a", "N123_xxx", "N7c", "N7d", "N126_xxxxxx", "N7f", "N80", "N129_xxxxxxxxx", "N82", "N83", "N132_xxxxxxxxxxxx", "N85", "N86", "N135_xxxxxxxxxxxxxxx", "N88", "N89", "N138_xxxxxxxxxxxxxxxxxx", "N8b", "N8c", "N141_xxxxxxxxxxxxxxxxxxxxx", "N8e", "N8f", "N144_xxxxxxxxxxxxxxxxxxxxxxxx", "N91", "N92", "N147_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N94", "N95", "N150_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N97", "N98", "N153_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N9a", "N9b", "N156_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N9d", "N9e", "N159_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Na0", "Na1", "N162_xx", "Na3", "Na4", "N165_xxxxx", "Na6", "Na7", "N168_xxxxxxxx", "Na9", "Naa", "N171_xxxxxxxxxxx", "Nac", "Nad", "N174_xxxxxxxxxxxxxx", "Naf", "Nb0", "N177_xxxxxxxxxxxxxxxxx", "Nb2", "Nb3", "N180_xxxxxxxxxxxxxxxxxxxx", "Nb5", "Nb6", "N183_xxxxxxxxxxxxxxxxxxxxxxx", "Nb8", "Nb9", "N186_xxxxxxxxxxxxxxxxxxxxxxxxxx", "Nbb", "Nbc", "N189_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nbe", "Nbf", "N192_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nc1", "Nc2", "N195_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nc4", "Nc5", "N198_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nc7", "Nc8", "N201_x", "Nca", "Ncb", "N204_xxxx", "Ncd", "Nce", "N207_xxxxxxx", "Nd0", "Nd1", "N210_xxxxxxxxxx", "Nd3", "Nd4", "N213_xxxxxxxxxxxxx", "Nd6", "Nd7", "N216_xxxxxxxxxxxxxxxx", "Nd9", "Nda", "N219_xxxxxxxxxxxxxxxxxxx", "Ndc", "Ndd", "N222_xxxxxxxxxxxxxxxxxxxxxx", "Ndf", "Ne0", "N225_xxxxxxxxxxxxxxxxxxxxxxxxx", "Ne2", "Ne3", "N228_xxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Ne5", "Ne6", "N231_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Ne8", "Ne9", "N234_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Neb", "Nec", "N237_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nee", "Nef", "N240_", "Nf1", "Nf2", "N243_xxx", "Nf4", "Nf5", "N246_xxxxxx", "Nf7", "Nf8", "N249_xxxxxxxxx", "Nfa", "Nfb", "N252_xxxxxxxxxxxx", "Nfd", "Nfe", "N255_xxxxxxxxxxxxxxx", "N100", "N101", "N258_xxxxxxxxxxxxxxxxxx", "N103", "N104", "N261_xxxxxxxxxxxxxxxxxxxxx", "N106", "N107", "N264_xxxxxxxxxxxxxxxxxxxxxxxx", "N109", "N10a", "N267_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N10c", "N10d", "N270_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N10f", "N110", "N273_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N112", "N113", "N276_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N115", "N116", "N279_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N118", "N119", "N282_xx", "N11b", "N11c", "N285_xxxxx", "N11e", "N11f", "N288_xxxxxxxx", "N121", "N122", "N291_xxxxxxxxxxx", "N124", "N125", "N294_xxxxxxxxxxxxxx", "N127", "N128", "N297_xxxxxxxxxxxxxxxxx", "N12a", "N12b") \
  CASE(e381, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1f", "N20", "N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N22", "N23", "N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N25", "N26", "N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N28", "N29", "N42_xx", "N2b", "N2c", "N45_xxxxx", "N2e", "N2f", "N48_xxxxxxxx", "N31", "N32", "N51_xxxxxxxxxxx", "N34", "N35", "N54_xxxxxxxxxxxxxx", "N37", "N38", "N57_xxxxxxxxxxxxxxxxx", "N3a", "N3b", "N60_xxxxxxxxxxxxxxxxxxxx", "N3d", "N3e", "N63_xxxxxxxxxxxxxxxxxxxxxxx", "N40", "N41", "N66_xxxxxxxxxxxxxxxxxxxxxxxxxx", "N43", "N44", "N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N46", "N47", "N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N49", "N4a", "N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4c", "N4d", "N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4f", "N50", "N81_x", "N52", "N53", "N84_xxxx", "N55", "N56", "N87_xxxxxxx", "N58", "N59", "N90_xxxxxxxxxx", "N5b", "N5c", "N93_xxxxxxxxxxxxx", "N5e", "N5f", "N96_xxxxxxxxxxxxxxxx", "N61", "N62", "N99_xxxxxxxxxxxxxxxxxxx", "N64", "N65", "N102_xxxxxxxxxxxxxxxxxxxxxx", "N67", "N68", "N105_xxxxxxxxxxxxxxxxxxxxxxxxx", "N6a", "N6b", "N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N6d", "N6e", "N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N70", "N71", "N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N73", "N74", "N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N76", "N77", "N120_", "N79", "N7a", "N123_xxx", "N7c", "N7d", "N126_xxxxxx", "N7f", "N80", "N129_xxxxxxxxx", "N82", "N83", "N132_xxxxxxxxxxxx", "N85", "N86", "N135_xxxxxxxxxxxxxxx", "N88", "N89", "N138_xxxxxxxxxxxxxxxxxx", "N8b", "N8c", "N141_xxxxxxxxxxxxxxxxxxxxx", "N8e", "N8f", "N144_xxxxxxxxxxxxxxxxxxxxxxxx", "N91", "N92", "N147_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N94", "N95", "N150_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N97", "N98", "N153_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N9a", "N9b", "N156_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N9d", "N9e", "N159_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Na0", "Na1", "N162_xx", "Na3", "Na4", "N165_xxxxx", "Na6", "Na7", "N168_xxxxxxxx", "Na9", "Naa", "N171_xxxxxxxxxxx", "Nac", "Nad", "N174_xxxxxxxxxxxxxx", "Naf", "Nb0", "N177_xxxxxxxxxxxxxxxxx", "Nb2", "Nb3", "N180_xxxxxxxxxxxxxxxxxxxx", "Nb5", "Nb6", "N183_xxxxxxxxxxxxxxxxxxxxxxx", "Nb8", "Nb9", "N186_xxxxxxxxxxxxxxxxxxxxxxxxxx", "Nbb", "Nbc", "N189_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nbe", "Nbf", "N192_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nc1", "Nc2", "N195_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nc4", "Nc5", "N198_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nc7", "Nc8", "N201_x", "Nca", "Ncb", "N204_xxxx", "Ncd", "Nce", "N207_xxxxxxx", "Nd0", "Nd1", "N210_xxxxxxxxxx", "Nd3", "Nd4", "N213_xxxxxxxxxxxxx", "Nd6", "Nd7", "N216_xxxxxxxxxxxxxxxx", "Nd9", "Nda", "N219_xxxxxxxxxxxxxxxxxxx", "Ndc", "Ndd", "N222_xxxxxxxxxxxxxxxxxxxxxx", "Ndf", "Ne0", "N225_xxxxxxxxxxxxxxxxxxxxxxxxx", "Ne2", "Ne3", "N228_xxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Ne5", "Ne6", "N231_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Ne8", "Ne9", "N234_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Neb", "Nec", "N237_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nee", "Nef", "N240_", "Nf1", "Nf2", "N243_xxx", "Nf4", "Nf5", "N246_xxxxxx", "Nf7", "Nf8", "N249_xxxxxxxxx", "Nfa", "Nfb", "N252_xxxxxxxxxxxx", "Nfd", "Nfe", "N255_xxxxxxxxxxxxxxx", "N100", "N101", "N258_xxxxxxxxxxxxxxxxxx", "N103", "N104", "N261_xxxxxxxxxxxxxxxxxxxxx", "N106", "N107", "N264_xxxxxxxxxxxxxxxxxxxxxxxx", "N109", "N10a", "N267_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N10c", "N10d", "N270_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N10f", "N110", "N273_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N112", "N113", "N276_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N115", "N116", "N279_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N118", "N119", "N282_xx", "N11b", "N11c", "N285_xxxxx", "N11e", "N11f", "N288_xxxxxxxx", "N121", "N122", "N291_xxxxxxxxxxx", "N124", "N125", "N294_xxxxxxxxxxxxxx", "N127", "N128", "N297_xxxxxxxxxxxxxxxxx", "N12a", "N12b") \
  CASE(e382, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1f", "N20", "N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N22", "N23", "N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N25", "N26", "N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N28", "N29", "N42_xx", "N2b", "N2c", "N45_xxxxx", "N2e", "N2f", "N48_xxxxxxxx", "N31", "N32", "N51_xxxxxxxxxxx", "N34", "N35", "N54_xxxxxxxxxxxxxx", "N37", "N38", "N57_xxxxxxxxxxxxxxxxx", "N3a", "N3b", "N60_xxxxxxxxxxxxxxxxxxxx", "N3d", "N3e", "N63_xxxxxxxxxxxxxxxxxxxxxxx", "N40", "N41", "N66_xxxxxxxxxxxxxxxxxxxxxxxxxx", "N43", "N44", "N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N46", "N47", "N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N49", "N4a", "N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4c", "N4d", "N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4f", "N50", "N81_x", "N52", "N53", "N84_xxxx", "N55", "N56", "N87_xxxxxxx", "N58", "N59", "N90_xxxxxxxxxx", "N5b", "N5c", "N93_xxxxxxxxxxxxx", "N5e", "N5f", "N96_xxxxxxxxxxxxxxxx", "N61", "N62", "N99_xxxxxxxxxxxxxxxxxxx", "N64", "N65", "N102_xxxxxxxxxxxxxxxxxxxxxx", "N67", "N68", "N105_xxxxxxxxxxxxxxxxxxxxxxxxx", "N6a", "N6b", "N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N6d", "N6e", "N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N70", "N71", "N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N73", "N74", "N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N76", "N77", "N120_", "N79", "N7a", "N123_xxx", "N7c", "N7d", "N126_xxxxxx", "N7f", "N80", "N129_xxxxxxxxx", "N82", "N83", "N132_xxxxxxxxxxxx", "N85", "N86", "N135_xxxxxxxxxxxxxxx", "N88", "N89", "N138_xxxxxxxxxxxxxxxxxx", "N8b", "N8c", "N141_xxxxxxxxxxxxxxxxxxxxx", "N8e", "N8f", "N144_xxxxxxxxxxxxxxxxxxxxxxxx", "N91", "N92", "N147_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N94", "N95", "N150_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N97", "N98", "N153_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N9a", "N9b", "N156_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N9d", "N9e", "N159_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Na0", "Na1", "N162_xx", "Na3", "Na4", "N165_xxxxx", "Na6", "Na7", "N168_xxxxxxxx", "Na9", "Naa", "N171_xxxxxxxxxxx", "Nac", "Nad", "N174_xxxxxxxxxxxxxx", "Naf", "Nb0", "N177_xxxxxxxxxxxxxxxxx", "Nb2", "Nb3", "N180_xxxxxxxxxxxxxxxxxxxx", "Nb5", "Nb6", "N183_xxxxxxxxxxxxxxxxxxxxxxx", "Nb8", "Nb9", "N186_xxxxxxxxxxxxxxxxxxxxxxxxxx", "Nbb", "Nbc", "N189_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nbe", "Nbf", "N192_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nc1", "Nc2", "N195_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nc4", "Nc5", "N198_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nc7", "Nc8", "N201_x", "Nca", "Ncb", "N204_xxxx", "Ncd", "Nce", "N207_xxxxxxx", "Nd0", "Nd1", "N210_xxxxxxxxxx", "Nd3", "Nd4", "N213_xxxxxxxxxxxxx", "Nd6", "Nd7", "N216_xxxxxxxxxxxxxxxx", "Nd9", "Nda", "N219_xxxxxxxxxxxxxxxxxxx", "Ndc", "Ndd", "N222_xxxxxxxxxxxxxxxxxxxxxx", "Ndf", "Ne0", "N225_xxxxxxxxxxxxxxxxxxxxxxxxx", "Ne2", "Ne3", "N228_xxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Ne5", "Ne6", "N231_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Ne8", "Ne9", "N234_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Neb", "Nec", "N237_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nee", "Nef", "N240_", "Nf1", "Nf2", "N243_xxx", "Nf4", "Nf5", "N246_xxxxxx", "Nf7", "Nf8", "N249_xxxxxxxxx", "Nfa", "Nfb", "N252_xxxxxxxxxxxx", "Nfd", "Nfe", "N255_xxxxxxxxxxxxxxx", "N100", "N101", "N258_xxxxxxxxxxxxxxxxxx", "N103", "N104", "N261_xxxxxxxxxxxxxxxxxxxxx", "N106", "N107", "N264_xxxxxxxxxxxxxxxxxxxxxxxx", "N109", "N10a", "N267_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N10c", "N10d", "N270_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N10f", "N110", "N273_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N112", "N113", "N276_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N115", "N116", "N279_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N118", "N119", "N282_xx", "N11b", "N11c", "N285_xxxxx", "N11e", "N11f", "N288_xxxxxxxx", "N121", "N122", "N291_xxxxxxxxxxx", "N124", "N125", "N294_xxxxxxxxxxxxxx", "N127", "N128", "N297_xxxxxxxxxxxxxxxxx", "N12a", "N12b") \
  CASE(e383, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1f", "N20", "N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N22", "N23", "N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N25", "N26", "N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N28", "N29", "N42_xx", "N2b", "N2c", "N45_xxxxx", "N2e", "N2f", "N48_xxxxxxxx", "N31", "N32", "N51_xxxxxxxxxxx", "N34", "N35", "N54_xxxxxxxxxxxxxx", "N37", "N38", "N57_xxxxxxxxxxxxxxxxx", "N3a", "N3b", "N60_xxxxxxxxxxxxxxxxxxxx", "N3d", "N3e", "N63_xxxxxxxxxxxxxxxxxxxxxxx", "N40", "N41", "N66_xxxxxxxxxxxxxxxxxxxxxxxxxx", "N43", "N44", "N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N46", "N47", "N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N49", "N4a", "N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4c", "N4d", "N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4f", "N50", "N81_x", "N52", "N53", "N84_xxxx", "N55", "N56", "N87_xxxxxxx", "N58", "N59", "N90_xxxxxxxxxx", "N5b", "N5c", "N93_xxxxxxxxxxxxx", "N5e", "N5f", "N96_xxxxxxxxxxxxxxxx", "N61", "N62", "N99_xxxxxxxxxxxxxxxxxxx", "N64", "N65", "N102_xxxxxxxxxxxxxxxxxxxxxx", "N67", "N68", "N105_xxxxxxxxxxxxxxxxxxxxxxxxx", "N6a", "N6b", "N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N6d", "N6e", "N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N70", "N71", "N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N73", "N74", "N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N76", "N77", "N120_", "N79", "N7a", "N123_xxx", "N7c", "N7d", "N126_xxxxxx", "N7f", "N80", "N129_xxxxxxxxx", "N82", "N83", "N132_xxxxxxxxxxxx", "N85", "N86", "N135_xxxxxxxxxxxxxxx", "N88", "N89", "N138_xxxxxxxxxxxxxxxxxx", "N8b", "N8c", "N141_xxxxxxxxxxxxxxxxxxxxx", "N8e", "N8f", "N144_xxxxxxxxxxxxxxxxxxxxxxxx", "N91", "N92", "N147_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N94", "N95", "N150_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N97", "N98", "N153_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N9a", "N9b", "N156_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N9d", "N9e", "N159_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Na0", "Na1", "N162_xx", "Na3", "Na4", "N165_xxxxx", "Na6", "Na7", "N168_xxxxxxxx", "Na9", "Naa", "N171_xxxxxxxxxxx", "Nac", "Nad", "N174_xxxxxxxxxxxxxx", "Naf", "Nb0", "N177_xxxxxxxxxxxxxxxxx", "Nb2", "Nb3", "N180_xxxxxxxxxxxxxxxxxxxx", "Nb5", "Nb6", "N183_xxxxxxxxxxxxxxxxxxxxxxx", "Nb8", "Nb9", "N186_xxxxxxxxxxxxxxxxxxxxxxxxxx", "Nbb", "Nbc", "N189_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nbe", "Nbf", "N192_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nc1", "Nc2", "N195_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nc4", "Nc5", "N198_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nc7", "Nc8", "N201_x", "Nca", "Ncb", "N204_xxxx", "Ncd", "Nce", "N207_xxxxxxx", "Nd0", "Nd1", "N210_xxxxxxxxxx", "Nd3", "Nd4", "N213_xxxxxxxxxxxxx", "Nd6", "Nd7", "N216_xxxxxxxxxxxxxxxx", "Nd9", "Nda", "N219_xxxxxxxxxxxxxxxxxxx", "Ndc", "Ndd", "N222_xxxxxxxxxxxxxxxxxxxxxx", "Ndf", "Ne0", "N225_xxxxxxxxxxxxxxxxxxxxxxxxx", "Ne2", "Ne3", "N228_xxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Ne5", "Ne6", "N231_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Ne8", "Ne9", "N234_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Neb", "Nec", "N237_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nee", "Nef", "N240_", "Nf1", "Nf2", "N243_xxx", "Nf4", "Nf5", "N246_xxxxxx", "Nf7", "Nf8", "N249_xxxxxxxxx", "Nfa", "Nfb", "N252_xxxxxxxxxxxx", "Nfd", "Nfe", "N255_xxxxxxxxxxxxxxx", "N100", "N101", "N258_xxxxxxxxxxxxxxxxxx", "N103", "N104", "N261_xxxxxxxxxxxxxxxxxxxxx", "N106", "N107", "N264_xxxxxxxxxxxxxxxxxxxxxxxx", "N109", "N10a", "N267_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N10c", "N10d", "N270_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N10f", "N110", "N273_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N112", "N113", "N276_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N115", "N116", "N279_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N118", "N119", "N282_xx", "N11b", "N11c", "N285_xxxxx", "N11e", "N11f", "N288_xxxxxxxx", "N121", "N122", "N291_xxxxxxxxxxx", "N124", "N125", "N294_xxxxxxxxxxxxxx", "N127", "N128", "N297_xxxxxxxxxxxxxxxxx", "N12a", "N12b") \
  CASE(e384, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1f", "N20", "N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N22", "N23", "N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N25", "N26", "N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N28", "N29", "N42_xx", "N2b", "N2c", "N45_xxxxx", "N2e", "N2f", "N48_xxxxxxxx", "N31", "N32", "N51_xxxxxxxxxxx", "N34", "N35", "N54_xxxxxxxxxxxxxx", "N37", "N38", "N57_xxxxxxxxxxxxxxxxx", "N3a", "N3b", "N60_xxxxxxxxxxxxxxxxxxxx", "N3d", "N3e", "N63_xxxxxxxxxxxxxxxxxxxxxxx", "N40", "N41", "N66_xxxxxxxxxxxxxxxxxxxxxxxxxx", "N43", "N44", "N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N46", "N47", "N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N49", "N4a", "N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4c", "N4d", "N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4f", "N50", "N81_x", "N52", "N53", "N84_xxxx", "N55", "N56", "N87_xxxxxxx", "N58", "N59", "N90_xxxxxxxxxx", "N5b", "N5c", "N93_xxxxxxxxxxxxx", "N5e", "N5f", "N96_xxxxxxxxxxxxxxxx", "N61", "N62", "N99_xxxxxxxxxxxxxxxxxxx", "N64", "N65", "N102_xxxxxxxxxxxxxxxxxxxxxx", "N67", "N68", "N105_xxxxxxxxxxxxxxxxxxxxxxxxx", "N6a", "N6b", "N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N6d", "N6e", "N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N70", "N71", "N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N73", "N74", "N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N76", "N77", "N120_", "N79", "N7a", "N123_xxx", "N7c", "N7d", "N126_xxxxxx", "N7f", "N80", "N129_xxxxxxxxx", "N82", "N83", "N132_xxxxxxxxxxxx", "N85", "N86", "N135_xxxxxxxxxxxxxxx", "N88", "N89", "N138_xxxxxxxxxxxxxxxxxx", "N8b", "N8c", "N141_xxxxxxxxxxxxxxxxxxxxx", "N8e", "N8f", "N144_xxxxxxxxxxxxxxxxxxxxxxxx", "N91", "N92", "N147_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N94", "N95", "N150_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N97", "N98", "N153_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N9a", "N9b", "N156_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N9d", "N9e", "N159_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Na0", "Na1", "N162_xx", "Na3", "Na4", "N165_xxxxx", "Na6", "Na7", "N168_xxxxxxxx", "Na9", "Naa", "N171_xxxxxxxxxxx", "Nac", "Nad", "N174_xxxxxxxxxxxxxx", "Naf", "Nb0", "N177_xxxxxxxxxxxxxxxxx", "Nb2", "Nb3", "N180_xxxxxxxxxxxxxxxxxxxx", "Nb5", "Nb6", "N183_xxxxxxxxxxxxxxxxxxxxxxx", "Nb8", "Nb9", "N186_xxxxxxxxxxxxxxxxxxxxxxxxxx", "Nbb", "Nbc", "N189_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nbe", "Nbf", "N192_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nc1", "Nc2", "N195_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nc4", "Nc5", "N198_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nc7", "Nc8", "N201_x", "Nca", "Ncb", "N204_xxxx", "Ncd", "Nce", "N207_xxxxxxx", "Nd0", "Nd1", "N210_xxxxxxxxxx", "Nd3", "Nd4", "N213_xxxxxxxxxxxxx", "Nd6", "Nd7", "N216_xxxxxxxxxxxxxxxx", "Nd9", "Nda", "N219_xxxxxxxxxxxxxxxxxxx", "Ndc", "Ndd", "N222_xxxxxxxxxxxxxxxxxxxxxx", "Ndf", "Ne0", "N225_xxxxxxxxxxxxxxxxxxxxxxxxx", "Ne2", "Ne3", "N228_xxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Ne5", "Ne6", "N231_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Ne8", "Ne9", "N234_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Neb", "Nec", "N237_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nee", "Nef", "N240_", "Nf1", "Nf2", "N243_xxx", "Nf4", "Nf5", "N246_xxxxxx", "Nf7", "Nf8", "N249_xxxxxxxxx", "Nfa", "Nfb", "N252_xxxxxxxxxxxx", "Nfd", "Nfe", "N255_xxxxxxxxxxxxxxx", "N100", "N101", "N258_xxxxxxxxxxxxxxxxxx", "N103", "N104", "N261_xxxxxxxxxxxxxxxxxxxxx", "N106", "N107", "N264_xxxxxxxxxxxxxxxxxxxxxxxx", "N109", "N10a", "N267_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N10c", "N10d", "N270_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N10f", "N110", "N273_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N112", "N113", "N276_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N115", "N116", "N279_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N118", "N119", "N282_xx", "N11b", "N11c", "N285_xxxxx", "N11e", "N11f", "N288_xxxxxxxx", "N121", "N122", "N291_xxxxxxxxxxx", "N124", "N125", "N294_xxxxxxxxxxxxxx", "N127", "N128", "N297_xxxxxxxxxxxxxxxxx", "N12a", "N12b") \
  CASE(e385, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1f", "N20", "N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N22", "N23", "N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N25", "N26", "N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N28", "N29", "N42_xx", "N2b", "N2c", "N45_xxxxx", "N2e", "N2f", "N48_xxxxxxxx", "N31", "N32", "N51_xxxxxxxxxxx", "N34", "N35", "N54_xxxxxxxxxxxxxx", "N37", "N38", "N57_xxxxxxxxxxxxxxxxx", "N3a", "N3b", "N60_xxxxxxxxxxxxxxxxxxxx", "N3d", "N3e", "N63_xxxxxxxxxxxxxxxxxxxxxxx", "N40", "N41", "N66_xxxxxxxxxxxxxxxxxxxxxxxxxx", "N43", "N44", "N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N46", "N47", "N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N49", "N4a", "N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4c", "N4d", "N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4f", "N50", "N81_x", "N52", "N53", "N84_xxxx", "N55", "N56", "N87_xxxxxxx", "N58", "N59", "N90_xxxxxxxxxx", "N5b", "N5c", "N93_xxxxxxxxxxxxx", "N5e", "N5f", "N96_xxxxxxxxxxxxxxxx", "N61", "N62", "N99_xxxxxxxxxxxxxxxxxxx", "N64", "N65", "N102_xxxxxxxxxxxxxxxxxxxxxx", "N67", "N68", "N105_xxxxxxxxxxxxxxxxxxxxxxxxx", "N6a", "N6b", "N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N6d", "N6e", "N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N70", "N71", "N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N73", "N74", "N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N76", "N77", "N120_", "N79", "N7a", "N123_xxx", "N7c", "N7d", "N126_xxxxxx", "N7f", "N80", "N129_xxxxxxxxx", "N82", "N83", "N132_xxxxxxxxxxxx", "N85", "N86", "N135_xxxxxxxxxxxxxxx", "N88", "N89", "N138_xxxxxxxxxxxxxxxxxx", "N8b", "N8c", "N141_xxxxxxxxxxxxxxxxxxxxx", "N8e", "N8f", "N144_xxxxxxxxxxxxxxxxxxxxxxxx", "N91", "N92", "N147_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N94", "N95", "N150_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N97", "N98", "N153_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N9a", "N9b", "N156_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N9d", "N9e", "N159_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Na0", "Na1", "N162_xx", "Na3", "Na4", "N165_xxxxx", "Na6", "Na7", "N168_xxxxxxxx", "Na9", "Naa", "N171_xxxxxxxxxxx", "Nac", "Nad", "N174_xxxxxxxxxxxxxx", "Naf", "Nb0", "N177_xxxxxxxxxxxxxxxxx", "Nb2", "Nb3", "N180_xxxxxxxxxxxxxxxxxxxx", "Nb5", "Nb6", "N183_xxxxxxxxxxxxxxxxxxxxxxx", "Nb8", "Nb9", "N186_xxxxxxxxxxxxxxxxxxxxxxxxxx", "Nbb", "Nbc", "N189_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nbe", "Nbf", "N192_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nc1", "Nc2", "N195_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nc4", "Nc5", "N198_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nc7", "Nc8", "N201_x", "Nca", "Ncb", "N204_xxxx", "Ncd", "Nce", "N207_xxxxxxx", "Nd0", "Nd1", "N210_xxxxxxxxxx", "Nd3", "Nd4", "N213_xxxxxxxxxxxxx", "Nd6", "Nd7", "N216_xxxxxxxxxxxxxxxx", "Nd9", "Nda", "N219_xxxxxxxxxxxxxxxxxxx", "Ndc", "Ndd", "N222_xxxxxxxxxxxxxxxxxxxxxx", "Ndf", "Ne0", "N225_xxxxxxxxxxxxxxxxxxxxxxxxx", "Ne2", "Ne3", "N228_xxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Ne5", "Ne6", "N231_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Ne8", "Ne9", "N234_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Neb", "Nec", "N237_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nee", "Nef", "N240_", "Nf1", "Nf2", "N243_xxx", "Nf4", "Nf5", "N246_xxxxxx", "Nf7", "Nf8", "N249_xxxxxxxxx", "Nfa", "Nfb", "N252_xxxxxxxxxxxx", "Nfd", "Nfe", "N255_xxxxxxxxxxxxxxx", "N100", "N101", "N258_xxxxxxxxxxxxxxxxxx", "N103", "N104", "N261_xxxxxxxxxxxxxxxxxxxxx", "N106", "N107", "N264_xxxxxxxxxxxxxxxxxxxxxxxx", "N109", "N10a", "N267_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N10c", "N10d", "N270_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N10f", "N110", "N273_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N112", "N113", "N276_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N115", "N116", "N279_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N118", "N119", "N282_xx", "N11b", "N11c", "N285_xxxxx", "N11e", "N11f", "N288_xxxxxxxx", "N121", "N122", "N291_xxxxxxxxxxx", "N124", "N125", "N294_xxxxxxxxxxxxxx", "N127", "N128", "N297_xxxxxxxxxxxxxxxxx", "N12a", "N12b") \
  CASE(e386, "N0_", "N1", "N2", "N3_xxx", "N4", "N5", "N6_xxxxxx", "N7", "N8", "N9_xxxxxxxxx", "Na", "Nb", "N12_xxxxxxxxxxxx", "Nd", "Ne", "N15_xxxxxxxxxxxxxxx", "N10", "N11", "N18_xxxxxxxxxxxxxxxxxx", "N13", "N14", "N21_xxxxxxxxxxxxxxxxxxxxx", "N16", "N17", "N24_xxxxxxxxxxxxxxxxxxxxxxxx", "N19", "N1a", "N27_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1c", "N1d", "N30_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N1f", "N20", "N33_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N22", "N23", "N36_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N25", "N26", "N39_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N28", "N29", "N42_xx", "N2b", "N2c", "N45_xxxxx", "N2e", "N2f", "N48_xxxxxxxx", "N31", "N32", "N51_xxxxxxxxxxx", "N34", "N35", "N54_xxxxxxxxxxxxxx", "N37", "N38", "N57_xxxxxxxxxxxxxxxxx", "N3a", "N3b", "N60_xxxxxxxxxxxxxxxxxxxx", "N3d", "N3e", "N63_xxxxxxxxxxxxxxxxxxxxxxx", "N40", "N41", "N66_xxxxxxxxxxxxxxxxxxxxxxxxxx", "N43", "N44", "N69_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N46", "N47", "N72_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N49", "N4a", "N75_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4c", "N4d", "N78_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N4f", "N50", "N81_x", "N52", "N53", "N84_xxxx", "N55", "N56", "N87_xxxxxxx", "N58", "N59", "N90_xxxxxxxxxx", "N5b", "N5c", "N93_xxxxxxxxxxxxx", "N5e", "N5f", "N96_xxxxxxxxxxxxxxxx", "N61", "N62", "N99_xxxxxxxxxxxxxxxxxxx", "N64", "N65", "N102_xxxxxxxxxxxxxxxxxxxxxx", "N67", "N68", "N105_xxxxxxxxxxxxxxxxxxxxxxxxx", "N6a", "N6b", "N108_xxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N6d", "N6e", "N111_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N70", "N71", "N114_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N73", "N74", "N117_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N76", "N77", "N120_", "N79", "N7a", "N123_xxx", "N7c", "N7d", "N126_xxxxxx", "N7f", "N80", "N129_xxxxxxxxx", "N82", "N83", "N132_xxxxxxxxxxxx", "N85", "N86", "N135_xxxxxxxxxxxxxxx", "N88", "N89", "N138_xxxxxxxxxxxxxxxxxx", "N8b", "N8c", "N141_xxxxxxxxxxxxxxxxxxxxx", "N8e", "N8f", "N144_xxxxxxxxxxxxxxxxxxxxxxxx", "N91", "N92", "N147_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N94", "N95", "N150_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N97", "N98", "N153_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N9a", "N9b", "N156_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N9d", "N9e", "N159_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Na0", "Na1", "N162_xx", "Na3", "Na4", "N165_xxxxx", "Na6", "Na7", "N168_xxxxxxxx", "Na9", "Naa", "N171_xxxxxxxxxxx", "Nac", "Nad", "N174_xxxxxxxxxxxxxx", "Naf", "Nb0", "N177_xxxxxxxxxxxxxxxxx", "Nb2", "Nb3", "N180_xxxxxxxxxxxxxxxxxxxx", "Nb5", "Nb6", "N183_xxxxxxxxxxxxxxxxxxxxxxx", "Nb8", "Nb9", "N186_xxxxxxxxxxxxxxxxxxxxxxxxxx", "Nbb", "Nbc", "N189_xxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nbe", "Nbf", "N192_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nc1", "Nc2", "N195_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nc4", "Nc5", "N198_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nc7", "Nc8", "N201_x", "Nca", "Ncb", "N204_xxxx", "Ncd", "Nce", "N207_xxxxxxx", "Nd0", "Nd1", "N210_xxxxxxxxxx", "Nd3", "Nd4", "N213_xxxxxxxxxxxxx", "Nd6", "Nd7", "N216_xxxxxxxxxxxxxxxx", "Nd9", "Nda", "N219_xxxxxxxxxxxxxxxxxxx", "Ndc", "Ndd", "N222_xxxxxxxxxxxxxxxxxxxxxx", "Ndf", "Ne0", "N225_xxxxxxxxxxxxxxxxxxxxxxxxx", "Ne2", "Ne3", "N228_xxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Ne5", "Ne6", "N231_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Ne8", "Ne9", "N234_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Neb", "Nec", "N237_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "Nee", "Nef", "N240_", "Nf1", "Nf2", "N243_xxx", "Nf4", "Nf5", "N246_xxxxxx", "Nf7", "Nf8", "N249_xxxxxxxxx", "Nfa", "Nfb", "N252_xxxxxxxxxxxx", "Nfd", "Nfe", "N255_xxxxxxxxxxxxxxx", "N100", "N101", "N258_xxxxxxxxxxxxxxxxxx", "N103", "N104", "N261_xxxxxxxxxxxxxxxxxxxxx", "N106", "N107", "N264_xxxxxxxxxxxxxxxxxxxxxxxx", "N109", "N10a", "N267_xxxxxxxxxxxxxxxxxxxxxxxxxxx", "N10c", "N10d", "N270_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N10f", "N110", "N273_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N112", "N113", "N276_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N115", "N116", "N279_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "N118", "N119", "N282_xx", "N11b", "N11c", "N285_xxxxx", "N11e", "N11f", "N288_xxxxxxxx", "N121", "N122", "N291_xxxxxxxxxxx", "N124", "N125", "N294_xxxxxxxxxxxxxx", "N127", "N128", "N297_xxxxxxxxxxxxxxxxx", "N12a", "N12b") \
  CASE(e387, "_", "__x", "x_", "_0", "Z9", "aVeryLongEnumeratorNameThatGoesOnAndOnUntilItIsLongerThanAnySmallBuffer_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq", "a") \
  CASE(e388, "_", "__x", "x_", "_0", "Z9", "aVeryLongEnumeratorNameThatGoesOnAndOnUntilItIsLongerThanAnySmallBuffer_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq", "a") \
  CASE(e389, "_", "__x", "x_", "_0", "Z9", "aVeryLongEnumeratorNameThatGoesOnAndOnUntilItIsLongerThanAnySmallBuffer_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq", "a") \
  CASE(e390, "_", "__x", "x_", "_0", "Z9", "aVeryLongEnumeratorNameThatGoesOnAndOnUntilItIsLongerThanAnySmallBuffer_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq", "a") \
  CASE(e391, "_", "__x", "x_", "_0", "Z9", "aVeryLongEnumeratorNameThatGoesOnAndOnUntilItIsLongerThanAnySmallBuffer_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq", "a") \
  CASE(e392, "_", "__x", "x_", "_0", "Z9", "aVeryLongEnumeratorNameThatGoesOnAndOnUntilItIsLongerThanAnySmallBuffer_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq", "a") \
  CASE(e393, "_", "__x", "x_", "_0", "Z9", "aVeryLongEnumeratorNameThatGoesOnAndOnUntilItIsLongerThanAnySmallBuffer_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq", "a") \

