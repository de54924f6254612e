//! An XML document and a changeset dump compressed with bzip2 (made with Python's bz2): as one stream,
//! as two cut inside a tag, and as three and an empty one.
pub const OSM_ONE: [u8; 309] = [66, 90, 104, 49, 49, 65, 89, 38, 83, 89, 29, 238, 255, 247, 0, 0, 79, 95, 128, 2, 16, 81, 3, 251, 255, 129, 0, 6, 16, 63, 239, 223, 224, 48, 1, 9, 54, 134, 138, 49, 76, 209, 52, 109, 71, 168, 198, 80, 25, 12, 106, 13, 168, 52, 38, 73, 166, 130, 100, 104, 13, 6, 152, 128, 0, 26, 167, 234, 153, 30, 160, 38, 154, 48, 2, 100, 100, 25, 52, 196, 211, 52, 19, 144, 91, 245, 20, 122, 227, 120, 65, 119, 6, 32, 96, 100, 121, 25, 54, 171, 23, 101, 54, 219, 85, 234, 98, 110, 108, 253, 11, 6, 121, 125, 76, 1, 126, 153, 97, 193, 136, 133, 182, 89, 42, 12, 96, 166, 110, 33, 128, 9, 115, 238, 101, 23, 242, 196, 51, 216, 158, 5, 48, 69, 80, 130, 47, 70, 54, 52, 113, 35, 152, 122, 195, 3, 6, 101, 145, 13, 1, 219, 218, 244, 52, 66, 122, 123, 83, 60, 52, 119, 219, 140, 202, 73, 118, 94, 138, 60, 231, 153, 40, 24, 48, 235, 157, 4, 112, 53, 214, 25, 76, 37, 248, 161, 2, 100, 74, 198, 126, 18, 44, 164, 3, 66, 182, 42, 197, 100, 244, 208, 9, 43, 126, 91, 103, 214, 240, 30, 169, 146, 210, 103, 177, 53, 7, 21, 9, 69, 103, 76, 69, 96, 24, 66, 195, 229, 241, 203, 161, 84, 14, 6, 153, 178, 79, 170, 14, 68, 67, 28, 209, 1, 70, 194, 187, 32, 142, 70, 230, 36, 43, 146, 72, 212, 51, 206, 84, 29, 21, 20, 32, 138, 4, 167, 53, 137, 56, 160, 8, 135, 8, 196, 87, 36, 84, 169, 72, 24, 129, 0, 34, 224, 55, 35, 12, 195, 192, 187, 146, 41, 194, 132, 128, 239, 119, 255, 184];
pub const OSM_TWO: [u8; 380] = [66, 90, 104, 49, 49, 65, 89, 38, 83, 89, 228, 125, 67, 76, 0, 0, 51, 223, 128, 0, 16, 81, 3, 251, 255, 129, 0, 6, 16, 62, 239, 223, 224, 48, 0, 173, 108, 66, 100, 166, 79, 73, 166, 106, 54, 163, 245, 19, 65, 234, 15, 66, 105, 163, 245, 66, 32, 8, 208, 26, 0, 0, 1, 160, 3, 84, 243, 68, 83, 32, 245, 6, 64, 122, 32, 1, 160, 32, 60, 136, 44, 212, 43, 218, 38, 35, 41, 16, 110, 124, 39, 132, 48, 139, 81, 38, 230, 29, 216, 0, 10, 119, 152, 10, 87, 85, 101, 26, 25, 16, 239, 156, 38, 220, 120, 2, 209, 161, 198, 56, 169, 9, 76, 21, 146, 8, 164, 23, 30, 110, 191, 37, 197, 117, 118, 68, 65, 54, 134, 206, 191, 157, 242, 242, 121, 99, 129, 130, 38, 57, 54, 198, 109, 126, 69, 155, 101, 82, 240, 209, 142, 33, 250, 60, 87, 55, 28, 246, 218, 180, 16, 69, 73, 189, 58, 7, 241, 138, 10, 90, 140, 37, 29, 177, 176, 102, 83, 236, 32, 59, 0, 4, 86, 2, 14, 21, 86, 144, 92, 104, 18, 209, 33, 72, 194, 128, 54, 117, 133, 148, 57, 24, 176, 75, 41, 148, 72, 1, 204, 223, 248, 187, 146, 41, 194, 132, 135, 35, 234, 26, 96, 66, 90, 104, 49, 49, 65, 89, 38, 83, 89, 116, 183, 57, 92, 0, 0, 75, 89, 128, 2, 16, 80, 2, 240, 167, 55, 175, 223, 160, 32, 0, 117, 13, 17, 54, 161, 166, 64, 104, 50, 52, 200, 25, 35, 83, 105, 26, 6, 18, 6, 152, 154, 67, 34, 255, 86, 106, 4, 221, 7, 122, 86, 85, 135, 19, 162, 129, 225, 238, 35, 2, 54, 51, 59, 60, 50, 89, 41, 82, 44, 156, 141, 206, 17, 200, 171, 194, 121, 16, 224, 97, 40, 219, 38, 62, 22, 251, 120, 62, 152, 43, 32, 73, 76, 49, 121, 58, 109, 130, 41, 38, 248, 8, 254, 102, 93, 212, 160, 199, 67, 92, 114, 97, 124, 140, 96, 229, 214, 62, 100, 221, 222, 34, 168, 37, 130, 135, 107, 252, 93, 201, 20, 225, 66, 65, 210, 220, 229, 112];
pub const OSM_FOUR: [u8; 457] = [66, 90, 104, 57, 49, 65, 89, 38, 83, 89, 186, 98, 207, 132, 0, 0, 51, 223, 128, 0, 16, 81, 3, 251, 255, 129, 0, 6, 16, 62, 239, 223, 224, 48, 0, 173, 96, 210, 100, 144, 245, 12, 154, 52, 253, 83, 212, 104, 209, 234, 15, 66, 105, 234, 61, 65, 164, 158, 18, 155, 83, 71, 169, 233, 3, 67, 32, 24, 154, 52, 49, 20, 241, 38, 128, 0, 0, 0, 0, 13, 229, 107, 80, 88, 101, 62, 208, 64, 81, 137, 133, 221, 181, 116, 42, 223, 6, 190, 142, 131, 187, 0, 19, 78, 104, 9, 251, 41, 168, 224, 202, 4, 78, 234, 211, 90, 48, 188, 13, 11, 40, 168, 56, 177, 24, 11, 9, 36, 10, 68, 140, 13, 80, 226, 215, 2, 194, 41, 52, 17, 17, 68, 145, 151, 126, 151, 203, 78, 179, 194, 244, 15, 126, 24, 182, 198, 83, 94, 39, 147, 99, 84, 214, 76, 113, 151, 210, 225, 60, 156, 153, 248, 205, 220, 8, 222, 159, 149, 157, 253, 12, 66, 80, 66, 130, 206, 236, 28, 144, 211, 132, 194, 136, 129, 77, 97, 148, 113, 228, 241, 45, 108, 82, 104, 137, 243, 184, 4, 166, 102, 218, 74, 98, 140, 209, 212, 113, 121, 145, 41, 214, 185, 11, 185, 34, 156, 40, 72, 93, 49, 103, 194, 0, 66, 90, 104, 57, 49, 65, 89, 38, 83, 89, 199, 200, 250, 107, 0, 0, 33, 89, 128, 0, 16, 80, 0, 176, 7, 39, 169, 157, 160, 32, 0, 72, 105, 170, 52, 109, 2, 31, 170, 26, 122, 131, 80, 52, 3, 64, 13, 31, 22, 27, 74, 222, 82, 183, 109, 8, 221, 174, 68, 141, 64, 225, 21, 152, 83, 35, 191, 181, 138, 8, 103, 121, 132, 178, 153, 8, 78, 15, 18, 38, 139, 17, 252, 93, 201, 20, 225, 66, 67, 31, 35, 233, 172, 66, 90, 104, 57, 23, 114, 69, 56, 80, 144, 0, 0, 0, 0, 66, 90, 104, 57, 49, 65, 89, 38, 83, 89, 14, 214, 132, 248, 0, 0, 15, 217, 128, 2, 16, 80, 2, 192, 167, 55, 39, 223, 160, 32, 0, 72, 104, 163, 53, 12, 152, 141, 168, 200, 211, 32, 213, 13, 148, 244, 152, 64, 201, 132, 122, 68, 120, 233, 5, 79, 15, 210, 45, 57, 153, 32, 144, 113, 74, 44, 132, 1, 170, 184, 165, 73, 234, 148, 24, 109, 69, 152, 44, 185, 29, 254, 139, 219, 114, 24, 49, 170, 170, 21, 136, 63, 113, 212, 21, 4, 90, 122, 114, 155, 98, 0, 217, 155, 153, 199, 226, 238, 72, 167, 10, 18, 1, 218, 208, 159, 0];
pub const CHANGESETS_ONE: [u8; 325] = [66, 90, 104, 49, 49, 65, 89, 38, 83, 89, 55, 29, 104, 55, 0, 0, 99, 95, 128, 2, 16, 81, 3, 254, 255, 129, 18, 142, 16, 191, 239, 223, 96, 48, 1, 45, 182, 1, 144, 148, 104, 50, 6, 128, 208, 104, 104, 109, 70, 212, 1, 234, 9, 84, 212, 252, 148, 244, 67, 67, 38, 32, 100, 52, 26, 52, 50, 52, 104, 18, 83, 74, 126, 148, 244, 8, 212, 245, 54, 80, 102, 145, 144, 0, 61, 70, 106, 92, 204, 14, 247, 28, 178, 0, 61, 154, 204, 24, 145, 10, 178, 103, 148, 79, 129, 94, 201, 108, 160, 140, 171, 107, 131, 171, 164, 147, 26, 37, 142, 128, 93, 88, 134, 33, 199, 94, 192, 224, 168, 104, 239, 98, 36, 175, 13, 225, 16, 128, 210, 112, 225, 230, 56, 196, 120, 99, 17, 112, 130, 32, 99, 20, 80, 65, 241, 170, 57, 12, 13, 51, 32, 56, 226, 179, 112, 55, 145, 60, 138, 126, 184, 89, 233, 3, 49, 10, 177, 253, 82, 252, 18, 34, 168, 166, 119, 222, 28, 250, 176, 114, 32, 215, 169, 97, 100, 25, 227, 65, 245, 29, 177, 240, 48, 70, 165, 130, 149, 171, 47, 208, 50, 13, 129, 185, 187, 127, 153, 94, 176, 31, 174, 166, 78, 160, 154, 65, 52, 114, 204, 219, 175, 156, 44, 11, 90, 11, 53, 83, 220, 15, 167, 184, 6, 70, 152, 217, 205, 90, 130, 96, 114, 178, 165, 133, 44, 171, 132, 167, 155, 154, 84, 131, 243, 161, 23, 7, 76, 192, 98, 74, 10, 149, 74, 29, 149, 120, 96, 234, 186, 84, 232, 208, 13, 113, 22, 76, 167, 108, 157, 209, 124, 75, 136, 167, 148, 13, 65, 8, 149, 168, 135, 124, 135, 83, 53, 50, 160, 44, 136, 81, 7, 151, 28, 159, 252, 93, 201, 20, 225, 66, 64, 220, 117, 160, 220];
pub const CHANGESETS_TWO: [u8; 411] = [66, 90, 104, 49, 49, 65, 89, 38, 83, 89, 189, 164, 204, 51, 0, 0, 22, 95, 128, 0, 16, 80, 3, 126, 119, 129, 0, 6, 16, 174, 231, 157, 64, 32, 0, 100, 69, 51, 34, 71, 234, 153, 60, 106, 152, 17, 137, 233, 63, 83, 40, 80, 154, 102, 160, 201, 161, 144, 100, 24, 17, 16, 96, 217, 212, 231, 161, 134, 22, 85, 26, 8, 153, 200, 36, 136, 108, 128, 99, 163, 109, 113, 177, 207, 33, 60, 151, 44, 87, 238, 124, 243, 13, 217, 186, 93, 193, 112, 127, 166, 106, 113, 131, 4, 165, 74, 35, 233, 92, 30, 96, 74, 248, 59, 161, 112, 173, 215, 249, 171, 78, 210, 137, 77, 137, 22, 5, 1, 96, 206, 63, 23, 114, 69, 56, 80, 144, 189, 164, 204, 51, 66, 90, 104, 49, 49, 65, 89, 38, 83, 89, 38, 204, 52, 241, 0, 0, 188, 223, 128, 2, 16, 81, 2, 254, 255, 0, 18, 140, 16, 191, 239, 223, 32, 48, 0, 246, 165, 24, 3, 77, 13, 26, 49, 25, 0, 208, 1, 161, 130, 73, 170, 159, 170, 121, 73, 166, 106, 49, 52, 97, 164, 48, 67, 13, 71, 168, 34, 166, 136, 147, 245, 79, 73, 226, 134, 70, 154, 6, 128, 245, 27, 83, 71, 169, 95, 64, 182, 77, 21, 69, 199, 20, 210, 44, 207, 225, 229, 227, 193, 199, 186, 130, 252, 110, 150, 206, 251, 65, 122, 225, 98, 52, 106, 119, 56, 135, 131, 108, 50, 39, 210, 238, 102, 202, 49, 176, 224, 80, 128, 137, 120, 218, 196, 5, 109, 40, 207, 152, 178, 70, 78, 70, 168, 96, 205, 172, 213, 96, 215, 236, 156, 134, 193, 187, 255, 163, 169, 116, 54, 111, 169, 115, 51, 68, 25, 124, 229, 63, 67, 35, 35, 0, 171, 131, 109, 207, 28, 215, 139, 238, 237, 141, 146, 120, 29, 69, 108, 104, 200, 143, 199, 80, 104, 118, 116, 114, 185, 139, 221, 28, 66, 121, 172, 130, 154, 174, 228, 239, 94, 117, 186, 244, 167, 237, 104, 220, 26, 6, 13, 18, 137, 80, 170, 177, 4, 44, 237, 98, 170, 195, 73, 89, 71, 129, 53, 127, 204, 200, 82, 193, 150, 82, 12, 138, 38, 109, 102, 249, 90, 88, 236, 48, 134, 161, 124, 194, 182, 103, 31, 226, 238, 72, 167, 10, 18, 4, 217, 134, 158, 32];
pub const CHANGESETS_FOUR: [u8; 532] = [66, 90, 104, 57, 49, 65, 89, 38, 83, 89, 109, 114, 198, 83, 0, 0, 22, 95, 128, 0, 16, 80, 3, 126, 119, 129, 0, 6, 16, 174, 231, 157, 64, 32, 0, 96, 138, 158, 200, 40, 253, 68, 244, 205, 83, 208, 212, 50, 61, 77, 166, 80, 193, 166, 141, 52, 194, 98, 100, 192, 64, 211, 32, 4, 42, 14, 105, 73, 152, 75, 165, 208, 65, 19, 88, 132, 81, 13, 89, 6, 115, 23, 48, 212, 198, 172, 143, 76, 194, 92, 124, 210, 148, 126, 202, 218, 56, 110, 189, 207, 247, 211, 224, 223, 2, 93, 109, 100, 109, 175, 38, 152, 46, 173, 201, 156, 144, 215, 30, 239, 184, 153, 64, 75, 21, 65, 194, 224, 57, 79, 248, 187, 146, 41, 194, 132, 131, 107, 150, 50, 152, 66, 90, 104, 57, 49, 65, 89, 38, 83, 89, 237, 157, 111, 152, 0, 0, 78, 223, 128, 0, 16, 81, 2, 254, 255, 0, 18, 140, 16, 191, 239, 223, 32, 48, 0, 170, 130, 80, 164, 244, 154, 12, 77, 7, 168, 61, 77, 52, 52, 245, 13, 30, 160, 18, 129, 68, 48, 154, 1, 160, 0, 0, 105, 234, 24, 25, 6, 64, 1, 136, 208, 100, 50, 3, 53, 16, 109, 42, 228, 151, 81, 128, 167, 61, 61, 22, 209, 143, 212, 58, 28, 224, 6, 181, 68, 177, 227, 202, 146, 10, 86, 60, 164, 86, 197, 7, 8, 100, 101, 219, 56, 166, 9, 220, 124, 14, 175, 83, 19, 61, 150, 214, 165, 207, 208, 102, 73, 126, 95, 68, 139, 156, 186, 21, 99, 218, 51, 95, 18, 53, 36, 138, 201, 243, 24, 122, 12, 11, 205, 140, 151, 89, 53, 10, 98, 21, 189, 147, 164, 180, 85, 104, 181, 146, 44, 71, 242, 10, 69, 31, 13, 65, 112, 83, 133, 26, 46, 130, 132, 146, 88, 76, 11, 2, 151, 139, 200, 164, 152, 156, 134, 41, 97, 72, 137, 225, 40, 133, 190, 43, 230, 28, 221, 92, 198, 58, 152, 160, 100, 191, 239, 248, 187, 146, 41, 194, 132, 135, 108, 235, 124, 192, 66, 90, 104, 57, 23, 114, 69, 56, 80, 144, 0, 0, 0, 0, 66, 90, 104, 57, 49, 65, 89, 38, 83, 89, 98, 223, 152, 151, 0, 0, 27, 91, 128, 2, 16, 80, 2, 246, 215, 4, 16, 174, 235, 223, 32, 32, 0, 117, 21, 164, 52, 30, 163, 212, 13, 3, 33, 163, 79, 77, 65, 169, 180, 65, 52, 154, 61, 79, 81, 229, 26, 50, 1, 164, 40, 30, 62, 102, 93, 190, 25, 217, 54, 176, 19, 71, 86, 184, 88, 60, 160, 94, 92, 86, 229, 234, 151, 22, 88, 178, 145, 133, 90, 165, 181, 79, 56, 36, 89, 30, 73, 221, 11, 6, 175, 66, 15, 148, 206, 187, 201, 215, 245, 40, 117, 138, 17, 133, 234, 210, 90, 133, 128, 65, 248, 203, 108, 164, 230, 48, 138, 80, 202, 48, 92, 140, 74, 6, 184, 56, 204, 212, 179, 81, 32, 39, 185, 165, 252, 93, 201, 20, 225, 66, 65, 139, 126, 98, 92];
/// the length of the first stream of CHANGESETS_TWO, which ends within the first changeset
pub const CHANGESETS_TWO_FIRST: usize = 141;
