#!/usr/bin/env python3
"""Writes properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
PB = "pasture-core/src/containers/point_buffer.rs"
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}})

prop("L01", "Point layouts place attributes without overlap, as a compiler would",
 "A point layout built attribute by attribute gives every attribute a byte range of exactly its data type's size, disjoint from all others, inside the point, in insertion order, and aligned to its data type's alignment (capped at N when N-byte packing is requested). The size of a point is the end of the last byte range rounded up to the strictest alignment in effect, so the layout equals the one Rust gives a repr(C) or repr(packed(N)) struct with the same fields, and extending an existing layout never moves or overlaps the attributes it already has.",
 ["inputs", "histories"], "every sequence of attributes of all built-in, byte-array and custom data types, every packing value, every mixture of default and packed additions, and every starting layout made from explicit members",
 "Unit tests check a handful of fixed two- and three-attribute layouts; overlap, alignment and padding depend on the order and mixture of data types.",
 ["pasture-core/src/layout/point_layout.rs", "pasture-core/src/math/arithmetic.rs"],
 [("next-field offset computation", "PointLayout::add_attribute / packed_offset_of_next_field"), ("alignment rounding", "Alignable::align_to"), ("explicit member validation", "PointLayout::from_members_and_alignment")],
 ["PointLayout::{add_attribute,from_attributes,from_attributes_packed,size_of_point_entry,offset_of}"])

prop("L02", "A derived point layout describes the struct's real memory exactly",
 "For every struct the derive macro accepts, the derived layout lists one attribute per field in declaration order, with the attribute name and data type the field was annotated with and declared as, at the byte offset where the compiler placed that field, and with total size equal to the struct's size. Structs whose memory cannot be described (no guaranteed field order, unannotated or unsupported fields, duplicate attributes) are rejected instead of getting a wrong layout.",
 ["programs"], "every struct definition over the supported field types, built-in and custom attribute annotations, and the representations C, packed and packed(N)",
 "The tests derive a few dozen hand-written structs, nearly all repr(C) or packed with naturally ordered fields; the macro's own offset and type logic must agree with the compiler for every definition.",
 ["pasture-derive/src/lib.rs", "pasture-derive/src/layout.rs", "pasture-core/src/layout/point_type.rs"],
 [("field layout computation", "pasture-derive/src/lib.rs"), ("repr parsing", "pasture-derive/src/layout.rs")],
 ["T::layout() against size_of/align_of/offset_of of T"])

prop("L03", "Layout queries agree with each other and survive serialization",
 "For any layout, asking by attribute, by name, by index or by iteration always gives the same attribute with the same offset, and asking for an attribute that is not present (other name, or same name with other data type where the type matters) is answered as absent. Two layouts compare equal exactly when they have the same attributes, data types and offsets in the same order and the same size and alignment; comparison without offsets tells whether they have the same attributes and data types whatever their order and offsets; its text form lists the attributes in order; and serializing then deserializing a layout returns an equal one.",
 ["inputs"], "every layout over all data types and names, and every query for present, absent and same-name-different-type attributes",
 "Tests query two or three fixed built-in attributes; agreement must hold for every layout and every near-miss query.",
 ["pasture-core/src/layout/point_layout.rs"],
 [("lookup functions", "PointLayout::{has_attribute,get_attribute,get_attribute_by_name,index_of,offset_of,at,attributes}"), ("equality", "PartialEq for PointLayout / compare_without_offsets"), ("serde derives", "feature serde")],
 ["PointLayout query API", "serde_json round trip"])

prop("B01", "Every point buffer behaves as a sequence of points under any history",
 "After any history of pushing, setting, swapping, resizing, clearing and appending points or attribute ranges, an interleaved, a columnar or an externally stored buffer reports exactly the length and, for every point, every range and every attribute, exactly the bytes that a plain list of points would hold after the same operations. Points that were not addressed by an operation keep their value, and new points made by growing are zero.",
 ["histories"], "every sequence of buffer operations with every index, range and payload, on every layout (padded, packed, single-attribute, custom types) and every buffer kind",
 "Tests run short fixed scenarios on two layouts with typed points; index arithmetic for padded layouts, ranges, and mixtures of operations is sampled a few times only.",
 [PB], [("interleaved storage", "VectorBuffer"), ("columnar storage", "HashMapBuffer"), ("borrowed storage", "ExternalMemoryBuffer")],
 ["BorrowedBuffer / BorrowedMutBuffer / OwningBuffer / InterleavedBuffer(Mut) / ColumnarBuffer(Mut)"])

prop("B02", "Memory layout is invisible: buffers of different kinds hold the same points",
 "Appending or copying points from any buffer or slice into any other buffer with the same layout, by the generic, interleaved-specific or columnar-specific route, appends exactly the source points in order after the existing ones and leaves the source unchanged. Interleaved and columnar buffers that received the same operations compare equal through every typed and untyped reading interface, including whole points, single attributes and attribute ranges, and views of buffers that do not hold equal points in the same order (one being longer than the other included) compare unequal.",
 ["histories", "inputs"], "every pair of source and destination buffer kinds (including slices as sources), layouts and contents",
 "Tests append one small buffer of one type into a few destinations; padded layouts and slice sources are not reached.",
 [PB], [("append routes", "OwningBuffer::{append,append_interleaved,append_columnar}"), ("collecting", "FromIterator for VectorBuffer and HashMapBuffer")],
 ["append*, get_point*, get_attribute*, views and their equality"])

prop("B03", "A slice of a buffer is exactly its range of points and cannot escape it",
 "A slice over points [a, b) of a buffer, or of another slice, has length b-a and shows at every index, range and attribute exactly what the underlying buffer holds at that index plus a, through every accessor, and a write through a mutable slice changes exactly the addressed points of the underlying buffer. Any index or range outside the slice is rejected, so no access through a slice can read or change a point outside its range.",
 ["histories", "inputs"], "every buffer kind, every (nested) slice range including empty and full ranges, every accessor, and in-range as well as out-of-range indices",
 "Tests compare one fixed sub-range by reading; out-of-range accesses, mutation and nested slices are untested.",
 ["pasture-core/src/containers/slice.rs", PB], [("index translation", "slice.rs get_and_check_global_point_index/range"), ("slice types", "BufferSlice{,Interleaved,Columnar}{,Mut}")],
 ["SliceBuffer(Mut)::slice(_mut) and all buffer traits on slices"])

prop("B04", "Typed point views and their iterators behave like a slice of points",
 "A typed view of a buffer yields, by index and by every kind of iterator (by value, by reference, by mutable reference), exactly the buffer's points in order, each once, and under any combination of next, nth, skip and step_by steps it yields what the same steps yield on a plain list, ending cleanly past the end. A value written through a view, a mutable reference or a mutable iterator, and an order established by sorting through a view (which sorts as the stable sort of a plain list does), is exactly what the buffer holds afterwards.",
 ["histories", "inputs"], "every point type, buffer kind, length including zero, and every sequence of iterator steps and view writes",
 "Tests iterate complete buffers from front to back; skipping past the end, empty buffers and interleaved stepping are not reached.",
 ["pasture-core/src/containers/buffer_views.rs", "pasture-core/src/containers/point_iterators.rs"],
 [("views", "PointView / PointViewMut"), ("iterators", "PointIteratorByValue/ByRef/ByMut")], ["view(), view_mut(), iter(), iter_mut(), into_iter(), sort_by()"])

prop("B05", "Attribute views give typed and raw access to exactly one attribute",
 "A typed, raw or type-converting view of one attribute yields, by index and by every iterator with any combination of steps, exactly that attribute's value of each point in order, converted as by the language's numeric cast where the requested type differs. Writing through a mutable attribute view or iterator, or transforming an attribute in place, changes exactly the addressed values of exactly that attribute and nothing else.",
 ["histories", "inputs"], "every attribute and data type, every requested type, every buffer kind and length, and every sequence of iterator steps and writes",
 "Tests view one or two attributes front to back on two layouts; other attributes' bytes, strides and stepping iterators are not checked.",
 ["pasture-core/src/containers/buffer_views.rs", "pasture-core/src/containers/attribute_iterators.rs", "pasture-core/src/containers/raw_attribute_view.rs"],
 [("attribute views", "AttributeView(Mut) / AttributeViewConverting / RawAttributeView(Mut)"), ("iterators", "AttributeIteratorByValue/ByRef/ByMut")],
 ["view_attribute(_mut), view_attribute_with_conversion, view_raw_attribute(_mut), transform_attribute"])

prop("B06", "Attribute-wise pushing commits whole points or nothing",
 "Pushing data attribute by attribute into a columnar buffer and committing appends exactly one point per pushed value, combining the i-th values of all attributes in whatever order the attributes were pushed, behind the existing points. A commit in which any attribute has too few or too many values is refused, and an abandoned or refused push leaves the buffer as it was.",
 ["histories"], "every layout, prior contents, push order, value counts per attribute (missing, surplus, repeated) and repeated use of the pusher",
 "One test pushes all attributes once in order; missing, repeated or surplus attributes and non-empty buffers are not covered systematically.",
 [PB], [("pusher bookkeeping", "HashMapBufferAttributePusher::{push_attribute_range,done}")], ["HashMapBuffer::begin_push_attributes"])

prop("B07", "Filtering and collecting keep exactly the chosen points in order",
 "Filtering a buffer by a predicate yields a buffer of any kind with exactly the points whose index satisfies the predicate, in their original order with all attributes intact, and filtering into an existing buffer overwrites only its leading points and keeps the rest. Collecting any iterator of typed points into a buffer gives exactly the points the iterator yields, however many it announces beforehand.",
 ["inputs"], "every source layout and contents, predicate, destination kind and size, and every iterator whatever its size hint",
 "Tests filter with one alternating predicate into equal-size buffers and collect only exact-size iterators.",
 [PB], [("filtering", "HashMapBuffer::{filter,filter_into}"), ("collecting", "FromIterator for VectorBuffer/HashMapBuffer")], ["filter, filter_into, collect::<VectorBuffer>(), collect::<HashMapBuffer>()"])

prop("B08", "Accesses that do not fit are refused and leave the buffer unchanged",
 "A typed access whose point type or attribute type does not match the buffer's layout, an attribute that is not in the layout, an index or range past the end, or an append from a buffer with a different layout is refused with a panic or error. In no such case is data returned that is not the requested data, is any point changed that was not addressed, or is memory outside of the buffer touched, and the buffer stays readable with its previous contents.",
 ["inputs", "histories"], "every combination of buffer kind, layout, near-miss point type or attribute definition, and out-of-range index or range",
 "A few should_panic tests cover one mismatch each; near misses (same name other type, same attributes other offsets, off-by-one indices) are not explored.",
 ["pasture-core/src/containers/buffer_views.rs", PB], [("layout and type assertions", "PointView::new, AttributeView::new, append*, swap"), ("bounds checks", "byte-range slicing")], ["view*, get_*, set_*, swap, append*"])

prop("C01", "Attribute conversion equals the language's numeric cast for every value",
 "For every ordered pair of attribute data types for which a converter exists, converting the bytes of any value gives the bytes of the component-wise numeric cast of that value to the target type (truncating or wrapping integers, saturating floats, NaN to zero), regardless of the alignment of the buffers. Exactly the pairs of scalar types and the pairs of three-component vector types are convertible, equal types need no converter, and no other memory is read or written.",
 ["inputs"], "every pair of data types and every source value including extremes, NaN, infinities and negative numbers, at any memory alignment",
 "Tests check a couple of small positive values per pair; sign, range, NaN and alignment behaviour must hold for every value of more than 100 type pairs.",
 ["pasture-core/src/layout/conversion/attribute_conversion.rs"], [("converter table", "get_generic_converter / get_converter_for_attributes")], ["get_converter_for_attributes, convert_unit"])

prop("C02", "Converting a buffer to another layout maps every attribute and loses no point",
 "Converting a buffer between two layouts, from any buffer kind to any buffer kind, yields the same number of points in the same order, where each target attribute that exists in the source under the same name has the source value cast to the target's data type, and each target attribute missing from the source is refused or, if defaults were asked for, left at its previous value (zero in a new buffer). Building the converter for the same two layouts and converting again gives the same result, and the source is unchanged.",
 ["inputs", "configurations"], "every pair of layouts (reordered, padded, packed, subset, superset, other data types), buffer kinds for both sides, and contents",
 "Tests convert a few fixed layout pairs; per-attribute strides, offsets and the four memory-layout combinations interact for every pair.",
 ["pasture-core/src/layout/conversion/buffer_conversion.rs"], [("converter", "BufferLayoutConverter::{for_layouts,for_layouts_with_default,convert,convert_into}")], ["convert, convert_into"])

prop("C03", "Range conversion and custom mappings touch exactly what they were told to",
 "Converting a source range into a target range writes exactly the target points of that range from exactly the source points of the source range, in order, and leaves every other target point and every unmapped attribute as it was; ranges of different length or out of bounds are refused. A custom mapping makes the target attribute take its values from the chosen source attribute instead of the default one, and a transformation is applied exactly once to each value, before or after the type conversion as requested, with the last mapping set for a target attribute winning.",
 ["inputs", "configurations"], "every pair of layouts, source and target ranges, sets of custom mappings, transformation functions and sides, and buffer kinds",
 "Tests use one fixed range and one transformation; combinations of mappings, conversions, sides and ranges are not explored.",
 ["pasture-core/src/layout/conversion/buffer_conversion.rs"], [("range conversion", "convert_into_range"), ("mappings", "set_custom_mapping, set_custom_mapping_with_transformation")], ["convert_into_range, set_custom_mapping*"])

prop("C04", "Converting single points moves every shared attribute correctly",
 "Converting the raw bytes of one point between two layouts sets every attribute present in both layouts under the same name to the source value cast to the target data type, whether or not the two data types differ, and leaves all other target bytes alone. The result agrees with converting a one-point buffer between the same layouts.",
 ["inputs"], "every pair of layouts sharing convertible attributes and every point value",
 "A single documentation example is all that exercises it; agreement for all type pairs and offsets is not tested.",
 ["pasture-core/src/layout/conversion/attribute_conversion.rs", "pasture-core/src/layout/conversion/buffer_conversion.rs"], [("point converter", "RawPointConverter::{from_to,convert}")], ["RawPointConverter"])

prop("U01", "Untyped points read back what was written, attribute by attribute",
 "An untyped point, owned or borrowed, returns for each attribute exactly the value last written to it (converted when a different compatible type is requested), through both the raw and the typed accessors, and writing one attribute changes no byte of any other attribute. Accesses to attributes that are absent, of incompatible type, or with buffers of the wrong size are refused with an error and change nothing.",
 ["histories", "inputs"], "every layout, every sequence of typed and raw attribute reads and writes, and every near-miss access",
 "Tests set and get two fixed attributes once.",
 ["pasture-core/src/containers/untyped_point.rs"], [("untyped points", "UntypedPointBuffer / UntypedPointSlice / UntypedPoint")], ["UntypedPoint::{get_attribute,set_attribute,get_raw_attribute,set_raw_attribute,get_layout,get_cursor}"])

prop("M01", "Alignment and bit utilities satisfy their defining equations",
 "Rounding up to an alignment gives the smallest multiple of the alignment that is not below the value, for every integer width and power-of-two or other positive alignment that the result fits in. Spreading bits for Morton codes puts source bit i at bit 3i and nothing elsewhere, and reversing bits maps bit i to the mirrored bit position, for every value.",
 ["inputs"], "every integer value and alignment",
 "Tests check a few constants.",
 ["pasture-core/src/math/arithmetic.rs", "pasture-core/src/math/bitmanip.rs"], [("rounding", "Alignable::align_to"), ("Morton helpers", "expand_bits_by_3, reverse_bits")], ["align_to, expand_bits_by_3, reverse_bits"])

prop("M02", "Bounding boxes obey the laws of boxes",
 "A bounding box contains exactly the points between its minimum and maximum on every axis (borders included); two boxes intersect exactly when they share a point; the union is the smallest box containing both, growing by a point gives the smallest box containing box and point, and the box of a point collection is the smallest box containing all of them. Extent, center, cube form and approximate containment agree with these definitions, boxes whose minimum exceeds their maximum are refused, and component-wise minimum and maximum agree with the ordering of the components.",
 ["inputs"], "every pair of boxes and every point, including touching, nested, degenerate and disjoint configurations",
 "Tests check a few separate boxes; touching borders and per-axis combinations grow exponentially.",
 ["pasture-core/src/math/bounds.rs", "pasture-core/src/math/minmax.rs"], [("box type", "AABB"), ("component-wise comparison", "MinMax")], ["AABB, MinMax"])

prop("A01", "Computed bounds and attribute ranges are the tightest ones",
 "The bounds computed for a point cloud are the component-wise minimum and maximum of its positions, whatever the buffer kind, the other attributes and the position data type, and are absent exactly when there are no points or no positions. The minimum and maximum computed for an attribute are the component-wise minimum and maximum over all points, and absent exactly for empty buffers.",
 ["inputs"], "every buffer kind, layout, length and attribute values including negative and equal ones",
 "Tests use a few hundred random points inside the unit cube with one layout.",
 ["pasture-algorithms/src/bounds.rs", "pasture-algorithms/src/minmax.rs"], [("bounds", "calculate_bounds"), ("attribute range", "minmax_attribute")], ["calculate_bounds, minmax_attribute"])

prop("A02", "Voxel-grid filtering replaces each occupied voxel by one aggregate point",
 "Filtering with given voxel sizes partitions the points by the nearest line of a regular grid that starts one voxel size above the minimum corner of the cloud, and outputs exactly one point per occupied voxel. Each output position is the mean position of the voxel's points, and every other attribute is the documented aggregate of the voxel's values (mean, most common value or maximum), so every input point influences exactly one output point.",
 ["inputs"], "every point cloud, set of builtin attributes with any values including negative ones, voxel size and buffer kinds for input and output",
 "Tests check output counts for one regular grid and a few attribute values for one voxel.",
 ["pasture-algorithms/src/voxel_grid.rs"], [("voxel assignment", "find_leaf, create_markers_for_axis"), ("aggregation", "centroid_* functions, set_all_attributes")], ["voxelgrid_filter"])

prop("A03", "The convex hull encloses every point and consists of input points",
 "For any point set that spans space, the hull is a closed mesh of triangles over input points such that no input point lies outside any triangle's plane, and the hull's point set contains every extreme point of the input. For degenerate input (too few, identical or collinear points) the mesh is refused with an error, and for coplanar input the mesh covers the planar hull.",
 ["inputs"], "every finite point set, including duplicates, collinear and coplanar subsets, any order and either buffer kind or position data type",
 "Tests check fewer than fifteen small hand-made sets and one random cloud inside a sphere or cube.",
 ["pasture-algorithms/src/convexhull.rs"], [("incremental hull", "create_convex_hull, iteration")], ["convex_hull_as_triangle_mesh, convex_hull_as_points"])

prop("A04", "RANSAC returns a model through cloud points and exactly its inliers",
 "Plane and line segmentation, serial and parallel, return a model that passes through points of the cloud together with exactly those point indices, ascending and without repetition, whose distance to that model is below the threshold, and a score equal to their number. The model is the one with the most inliers among the samples drawn, and every sample of the cloud can be drawn: with enough iterations the best sample's score is returned, and a single iteration finds all points of a cloud that lies on one model.",
 ["inputs", "schedules"], "every point cloud with enough points, threshold, positive iteration count, any random choice of samples and any parallel schedule",
 "Tests look for one plane and one line in one fixed cloud, and only for the presence of expected inliers.",
 ["pasture-algorithms/src/segmentation.rs"], [("hypothesis generation and scoring", "generate_plane_model, generate_line_model"), ("selection", "ransac_{plane,line}_{par,serial}")], ["ransac_plane_par/serial, ransac_line_par/serial"])

prop("A05", "Estimated normals and centroids match the neighbourhood's geometry",
 "The centroid of a point cloud is the component-wise mean of its finite points. For every point, in order, the estimated normal is the direction of least variance of its k nearest points (those with a finite position) and the curvature is the share of that variance in the total, so points on a plane get that plane's normal and zero curvature, and moving, rotating or scaling the cloud moves, rotates or keeps the result accordingly.",
 ["inputs"], "every finite point cloud, neighbourhood size of at least three, position and orientation",
 "Tests check a few axis-aligned planes; general orientations and clouds with thickness are not checked.",
 ["pasture-algorithms/src/normal_estimation.rs"], [("covariance and eigenvector", "compute_covariance_matrix, eigen_3x3"), ("neighbour search", "compute_normals")], ["compute_normals, compute_centroid"])

prop("A06", "Reprojection transforms every position once and touches nothing else",
 "Reprojecting a point cloud in place replaces every position by that position transformed from the source to the target reference system and leaves the number of points and all other attributes unchanged; reprojecting into a second cloud writes the same positions there, leaves the source unchanged, and refuses clouds of different length. Transformed bounds are the box around all transformed corner points, unknown reference systems are refused with an error, and reprojecting forth and back returns to the original positions within numerical accuracy.",
 ["inputs"], "every point cloud, layout and buffer kind on both sides, and pair of supported reference systems",
 "Tests reproject four fixed points with one pair of reference systems.",
 ["pasture-algorithms/src/reprojection.rs"], [("reprojection", "reproject_point_cloud_within / _between, Projection")], ["reproject_point_cloud_within, reproject_point_cloud_between, Projection"])

prop("I01", "Text point files: columns carry the named attributes, both ways",
 "The text writer writes one line per point in order, each with one column per literal of the format holding the value of the attribute that literal names (integers exactly, flags as 0 or 1, reals to five decimals), for any memory layout, buffer kind, number of write calls and destination; it fails if an attribute is not there or the destination refuses bytes. The text reader returns the points of the lines in order with exactly the values of the columns the format names, continues over several reads, returns the number of points read, converts to other data types as the numeric cast does, and reports unknown literals, missing columns, malformed or out-of-range values and impossible conversions as errors.",
 ["inputs"], "every format, point buffer, text in the format, delimiter, line ending and sequence of reads and writes",
 "Tests write and read one ten-point file and four malformed ones.",
 ["pasture-io/src/ascii"], [("text files", "AsciiReader, AsciiWriter")], ["AsciiReader::{from_read, read, read_into}, AsciiWriter::{from_write, write, flush}"])

prop("I02", "3D Tiles: files hold exactly the points and tables written, and are read back",
 "A .pnts file written from any point buffer, in any number of write and flush calls, to any destination has a header whose lengths match the sections and the file, sections aligned to eight bytes, a feature table naming exactly the supported attributes of the layout, POINTS_LENGTH and RTC_CENTER, and at the named offsets the values in order (converted as the numeric cast does); every flush leaves a complete file, and refused bytes make it fail. The reader returns exactly the points of a file, from any seek position and over any number of reads, with RTC_CENTER added only to the positions it read and only in absolute mode, touches no other point or attribute of the buffer, and reports malformed and truncated files as errors. Feature tables, batch tables and tile sets survive writing and reading; metadata names exactly the fields the file has.",
 ["inputs"], "every layout, point buffer, RTC_CENTER, table, tile set and sequence of write, flush, read and seek operations",
 "Tests write and read back one small buffer per layout.",
 ["pasture-io/src/tiles3d"], [("3D Tiles files", "PntsReader, PntsWriter, feature and batch tables, Tileset")], ["PntsReader::{from_read, read, read_into, seek_point}, PntsWriter::{write, flush, set_rtc_center}, deser_/ser_feature_table_header, deser_/ser_batch_table_header, Tileset"])

prop("I03", "LAS and LAZ files hold exactly the points written, and are read back",
 "A LAS or LAZ file written from any point buffer, in any number of write and flush calls, is a valid file of the given format: header, VLRs, padding, EVLRs and extra bytes are those given, number of points, points per return and bounds are those of the points, positions lie on the grid of the file at the nearest value, and every other attribute has the value written (converted as the numeric cast does, zero if the buffer does not have it, cut to its bits); positions outside of the grid are refused; every flush leaves a complete file, and refused bytes make writing fail. The reader returns exactly the points of a file, from any seek position, over any number of reads, into any buffer and layout, in the world-space or the exact binary layout, touches nothing else in the buffer, and reports malformed and truncated files as errors. Paths decide between LAS and LAZ by their extension.",
 ["inputs"], "every point format, header, layout, point buffer and sequence of write, flush, read and seek operations",
 "Tests write and read back one small fixed buffer per point format.",
 ["pasture-io/src/las", "pasture-io/src/base"], [("LAS and LAZ files", "LASReader, LASWriter, read_all, write_all, GenericPointReader, GenericPointWriter")], ["RawLASReader, RawLAZReader, RawLASWriter, RawLAZWriter, point_layout_from_las_metadata, write_helpers, read_helpers"])

prop("I04", "LAS metadata, VLRs and point formats are what the LAS specification says",
 "For every LAS header, the metadata reports exactly its bounds, number of points, point format, named fields, VLRs and header; the Extra Bytes, Classification Lookup and Text Area Description VLRs are read, written, accessed and displayed with exactly the values they hold, whatever their alignment, reserved bytes and lengths, and VLRs of another kind, size or encoding are refused with an error. The LAS point format for a layout is the smallest valid one that has all its LAS attributes; the layout for a format or for metadata has exactly the fields of the point records in their order (world-space or exact binary layout), including described and undescribed extra bytes, and contradictory descriptions are errors. Points of the las crate and packed bit fields are converted field by field, bounds survive the conversion, and file extensions, in any case, decide what is read and written.",
 ["inputs"], "every header, VLR, layout, point format, point and path",
 "Tests cover eleven fixed layouts and a handful of headers; VLR parsing and display are untested.",
 ["pasture-io/src/las", "pasture-io/src/base"], [("LAS metadata", "LASMetadata, ExtraBytesVlr, ClassificationLookup, TextAreaDescription, LasPointFormat0 to 10")], ["las_point_format_from_point_layout, point_layout_from_las_metadata, point_layout_from_las_point_format, LASMetadata, ExtraBytesEntry, path_is_compressed_las_file, GenericPointReader"])

prop("T01", "info: the report on a point cloud file says what the file contains",
 "For every readable LAS, LAZ or 3D Tiles file and any spelling of its extension, `info -i FILE` exits with 0 and reports the path and the metadata of the file: number of points, bounds, format, version and identifiers. With -d or --detailed it also lists the attributes of the points in order and, for exactly those of position, intensity, return number, number of returns, scan direction flag, edge of flight line, classification, scan angle rank, user data, point source ID, color, GPS time and NIR that the file has, the smallest and the largest value over all points, however many there are and whatever type the file stores them in; for no points, no values. Files that do not exist, are of another kind, are malformed or cut off, and wrong arguments end in an error message and a failure exit code, without a panic.",
 ["inputs"], "every file and command line",
 "The tool has no tests at all.",
 ["pasture-tools/src/bin/info.rs"], [("command line tool", "info")], ["info: get_args, analyze_file, main"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
