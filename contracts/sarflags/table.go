package sarflags

import zz "github.com/charlesetsmith/saratoga/zzverif"

// The documented header layout (the diagrams at the top of sarflags.go and the
// Saratoga draft), written out.

// zs_at: the field has the given length and position
func zs_at(name string, ln, msb uint32) bool {
	f, ok := Flags[name]
	return ok && f.Len == ln && f.Msb == msb
}

func zs_opt(name, option string, v uint32) bool {
	f, ok := Flags[name]
	o, has := f.Options[option]
	return ok && has && o == v
}

func zs_atD(name string, ln, msb uint16) bool {
	f, ok := DirentFlags[name]
	return ok && f.Len == ln && f.Msb == msb
}

func zs_optD(name, option string, v uint16) bool {
	f, ok := DirentFlags[name]
	o, has := f.Options[option]
	return ok && has && o == v
}

func zs_optT(option string, v uint8) bool {
	o, has := TimeStamps.Options[option]
	return has && o == v
}

func ZL_Table() {
	zz.Ensures("C02 version is where the format says, with its values", func() bool {
		return zs_at("version", 3, 0) && len(Flags["version"].Options) == 2 &&
			zs_opt("version", "v0", 0) &&
			zs_opt("version", "v1", 1)
	})
	zz.Ensures("C02 frametype is where the format says, with its values", func() bool {
		return zs_at("frametype", 5, 3) && len(Flags["frametype"].Options) == 5 &&
			zs_opt("frametype", "beacon", 0) &&
			zs_opt("frametype", "request", 1) &&
			zs_opt("frametype", "metadata", 2) &&
			zs_opt("frametype", "data", 3) &&
			zs_opt("frametype", "status", 4)
	})
	zz.Ensures("C02 descriptor is where the format says, with its values", func() bool {
		return zs_at("descriptor", 2, 8) && len(Flags["descriptor"].Options) == 4 &&
			zs_opt("descriptor", "d16", 0) &&
			zs_opt("descriptor", "d32", 1) &&
			zs_opt("descriptor", "d64", 2) &&
			zs_opt("descriptor", "d128", 3)
	})
	zz.Ensures("C02 stream is where the format says, with its values", func() bool {
		return zs_at("stream", 1, 11) && len(Flags["stream"].Options) == 2 &&
			zs_opt("stream", "no", 0) &&
			zs_opt("stream", "yes", 1)
	})
	zz.Ensures("C02 transfer is where the format says, with its values", func() bool {
		return zs_at("transfer", 2, 10) && len(Flags["transfer"].Options) == 4 &&
			zs_opt("transfer", "file", 0) &&
			zs_opt("transfer", "directory", 1) &&
			zs_opt("transfer", "bundle", 2) &&
			zs_opt("transfer", "stream", 3)
	})
	zz.Ensures("C02 reqtstamp is where the format says, with its values", func() bool {
		return zs_at("reqtstamp", 1, 12) && len(Flags["reqtstamp"].Options) == 2 &&
			zs_opt("reqtstamp", "no", 0) &&
			zs_opt("reqtstamp", "yes", 1)
	})
	zz.Ensures("C02 progress is where the format says, with its values", func() bool {
		return zs_at("progress", 1, 12) && len(Flags["progress"].Options) == 2 &&
			zs_opt("progress", "inprogress", 0) &&
			zs_opt("progress", "terminated", 1)
	})
	zz.Ensures("C02 txwilling is where the format says, with its values", func() bool {
		return zs_at("txwilling", 2, 12) && len(Flags["txwilling"].Options) == 4 &&
			zs_opt("txwilling", "no", 0) &&
			zs_opt("txwilling", "invalid", 1) &&
			zs_opt("txwilling", "capable", 2) &&
			zs_opt("txwilling", "yes", 3)
	})
	zz.Ensures("C02 metadatarecvd is where the format says, with its values", func() bool {
		return zs_at("metadatarecvd", 1, 13) && len(Flags["metadatarecvd"].Options) == 2 &&
			zs_opt("metadatarecvd", "yes", 0) &&
			zs_opt("metadatarecvd", "no", 1)
	})
	zz.Ensures("C02 allholes is where the format says, with its values", func() bool {
		return zs_at("allholes", 1, 14) && len(Flags["allholes"].Options) == 2 &&
			zs_opt("allholes", "yes", 0) &&
			zs_opt("allholes", "no", 1)
	})
	zz.Ensures("C02 reqtype is where the format says, with its values", func() bool {
		return zs_at("reqtype", 8, 24) && len(Flags["reqtype"].Options) == 7 &&
			zs_opt("reqtype", "noaction", 0) &&
			zs_opt("reqtype", "get", 1) &&
			zs_opt("reqtype", "put", 2) &&
			zs_opt("reqtype", "take", 3) &&
			zs_opt("reqtype", "give", 4) &&
			zs_opt("reqtype", "delete", 5) &&
			zs_opt("reqtype", "getdir", 6)
	})
	zz.Ensures("C02 rxwilling is where the format says, with its values", func() bool {
		return zs_at("rxwilling", 2, 14) && len(Flags["rxwilling"].Options) == 4 &&
			zs_opt("rxwilling", "no", 0) &&
			zs_opt("rxwilling", "invalid", 1) &&
			zs_opt("rxwilling", "capable", 2) &&
			zs_opt("rxwilling", "yes", 3)
	})
	zz.Ensures("C02 reqholes is where the format says, with its values", func() bool {
		return zs_at("reqholes", 1, 15) && len(Flags["reqholes"].Options) == 2 &&
			zs_opt("reqholes", "requested", 0) &&
			zs_opt("reqholes", "voluntarily", 1)
	})
	zz.Ensures("C02 reqstatus is where the format says, with its values", func() bool {
		return zs_at("reqstatus", 1, 15) && len(Flags["reqstatus"].Options) == 2 &&
			zs_opt("reqstatus", "no", 0) &&
			zs_opt("reqstatus", "yes", 1)
	})
	zz.Ensures("C02 udplite is where the format says, with its values", func() bool {
		return zs_at("udplite", 1, 16) && len(Flags["udplite"].Options) == 2 &&
			zs_opt("udplite", "no", 0) &&
			zs_opt("udplite", "yes", 1)
	})
	zz.Ensures("C02 eod is where the format says, with its values", func() bool {
		return zs_at("eod", 1, 16) && len(Flags["eod"].Options) == 2 &&
			zs_opt("eod", "no", 0) &&
			zs_opt("eod", "yes", 1)
	})
	zz.Ensures("C02 freespace is where the format says, with its values", func() bool {
		return zs_at("freespace", 1, 17) && len(Flags["freespace"].Options) == 2 &&
			zs_opt("freespace", "no", 0) &&
			zs_opt("freespace", "yes", 1)
	})
	zz.Ensures("C02 freespaced is where the format says, with its values", func() bool {
		return zs_at("freespaced", 2, 18) && len(Flags["freespaced"].Options) == 4 &&
			zs_opt("freespaced", "d16", 0) &&
			zs_opt("freespaced", "d32", 1) &&
			zs_opt("freespaced", "d64", 2) &&
			zs_opt("freespaced", "d128", 3)
	})
	zz.Ensures("C02 csumlen is where the format says, with its values", func() bool {
		return zs_at("csumlen", 4, 24) && len(Flags["csumlen"].Options) == 6 &&
			zs_opt("csumlen", "none", 0) &&
			zs_opt("csumlen", "crc32", 1) &&
			zs_opt("csumlen", "invalid2", 2) &&
			zs_opt("csumlen", "invalid3", 3) &&
			zs_opt("csumlen", "md5", 4) &&
			zs_opt("csumlen", "sha1", 5)
	})
	zz.Ensures("C02 csumtype is where the format says, with its values", func() bool {
		return zs_at("csumtype", 4, 28) && len(Flags["csumtype"].Options) == 4 &&
			zs_opt("csumtype", "none", 0) &&
			zs_opt("csumtype", "crc32", 1) &&
			zs_opt("csumtype", "md5", 2) &&
			zs_opt("csumtype", "sha1", 3)
	})
	zz.Ensures("C02 reliability is where the format says, with its values", func() bool {
		return zs_at("reliability", 1, 13) && len(Flags["reliability"].Options) == 2 &&
			zs_opt("reliability", "udponly", 0) &&
			zs_opt("reliability", "udplite", 1)
	})
	zz.Ensures("C02 errcode is where the format says, with its values", func() bool {
		return zs_at("errcode", 8, 24) && len(Flags["errcode"].Options) == 19 &&
			zs_opt("errcode", "success", 0) &&
			zs_opt("errcode", "unspecified", 1) &&
			zs_opt("errcode", "cantsend", 2) &&
			zs_opt("errcode", "cantreceive", 3) &&
			zs_opt("errcode", "filenotfound", 4) &&
			zs_opt("errcode", "accessdenied", 5) &&
			zs_opt("errcode", "unknownid", 6) &&
			zs_opt("errcode", "didnotdelete", 7) &&
			zs_opt("errcode", "filetobig", 8) &&
			zs_opt("errcode", "badoffset", 9) &&
			zs_opt("errcode", "badpacket", 10) &&
			zs_opt("errcode", "badrequest", 11) &&
			zs_opt("errcode", "internaltimeout", 12) &&
			zs_opt("errcode", "baddataflag", 13) &&
			zs_opt("errcode", "rxnotinterested", 14) &&
			zs_opt("errcode", "fileinuse", 15) &&
			zs_opt("errcode", "metadatarequired", 16) &&
			zs_opt("errcode", "badstatus", 17) &&
			zs_opt("errcode", "rxtimeout", 18)
	})
	zz.Ensures("C02 directory entry sod is where the format says, with its values", func() bool {
		return zs_atD("sod", 1, 0) && zs_optD("sod", "sod", 1)
	})
	zz.Ensures("C02 directory entry property is where the format says, with its values", func() bool {
		return zs_atD("property", 2, 6) && zs_optD("property", "normalfile", 0) &&
			zs_optD("property", "normaldirectory", 1) &&
			zs_optD("property", "specialfile", 2) &&
			zs_optD("property", "specialdirectory", 3)
	})
	zz.Ensures("C02 directory entry descriptor is where the format says, with its values", func() bool {
		return zs_atD("descriptor", 2, 8) && zs_optD("descriptor", "d16", 0) &&
			zs_optD("descriptor", "d32", 1) &&
			zs_optD("descriptor", "d64", 2) &&
			zs_optD("descriptor", "d128", 3)
	})
	zz.Ensures("C02 directory entry reserved is where the format says, with its values", func() bool {
		return zs_atD("reserved", 1, 10) && zs_optD("reserved", "reserved", 0)
	})
	zz.Ensures("C02 the timestamp types are those of the format", func() bool {
		return TimeStamps.Len == 8 && TimeStamps.Msb == 0 && zs_optT("localinterp", 0) && zs_optT("posix32", 1) && zs_optT("posix64", 2) && zs_optT("posix32_32", 3) && zs_optT("posix64_32", 4) && zs_optT("epoch2000_32", 5)
	})
}

// zs_apart: two fields share no bits
func zs_apart(a, b string) bool { return zs_mask(Flags[a])&zs_mask(Flags[b]) == 0 }

// ZL_Apart - within a frame no two fields share a bit and every value fits its field
func ZL_Apart() {
	zz.Ensures("C02 the fields of a beacon frame share no bits", func() bool {
		return zs_apart("version", "frametype") &&
			zs_apart("version", "descriptor") &&
			zs_apart("version", "stream") &&
			zs_apart("version", "txwilling") &&
			zs_apart("version", "rxwilling") &&
			zs_apart("version", "udplite") &&
			zs_apart("version", "freespace") &&
			zs_apart("version", "freespaced") &&
			zs_apart("frametype", "descriptor") &&
			zs_apart("frametype", "stream") &&
			zs_apart("frametype", "txwilling") &&
			zs_apart("frametype", "rxwilling") &&
			zs_apart("frametype", "udplite") &&
			zs_apart("frametype", "freespace") &&
			zs_apart("frametype", "freespaced") &&
			zs_apart("descriptor", "stream") &&
			zs_apart("descriptor", "txwilling") &&
			zs_apart("descriptor", "rxwilling") &&
			zs_apart("descriptor", "udplite") &&
			zs_apart("descriptor", "freespace") &&
			zs_apart("descriptor", "freespaced") &&
			zs_apart("stream", "txwilling") &&
			zs_apart("stream", "rxwilling") &&
			zs_apart("stream", "udplite") &&
			zs_apart("stream", "freespace") &&
			zs_apart("stream", "freespaced") &&
			zs_apart("txwilling", "rxwilling") &&
			zs_apart("txwilling", "udplite") &&
			zs_apart("txwilling", "freespace") &&
			zs_apart("txwilling", "freespaced") &&
			zs_apart("rxwilling", "udplite") &&
			zs_apart("rxwilling", "freespace") &&
			zs_apart("rxwilling", "freespaced") &&
			zs_apart("udplite", "freespace") &&
			zs_apart("udplite", "freespaced") &&
			zs_apart("freespace", "freespaced")
	})
	zz.Ensures("C02 the fields of a request frame share no bits", func() bool {
		return zs_apart("version", "frametype") &&
			zs_apart("version", "descriptor") &&
			zs_apart("version", "stream") &&
			zs_apart("version", "txwilling") &&
			zs_apart("version", "rxwilling") &&
			zs_apart("version", "reqtype") &&
			zs_apart("version", "udplite") &&
			zs_apart("frametype", "descriptor") &&
			zs_apart("frametype", "stream") &&
			zs_apart("frametype", "txwilling") &&
			zs_apart("frametype", "rxwilling") &&
			zs_apart("frametype", "reqtype") &&
			zs_apart("frametype", "udplite") &&
			zs_apart("descriptor", "stream") &&
			zs_apart("descriptor", "txwilling") &&
			zs_apart("descriptor", "rxwilling") &&
			zs_apart("descriptor", "reqtype") &&
			zs_apart("descriptor", "udplite") &&
			zs_apart("stream", "txwilling") &&
			zs_apart("stream", "rxwilling") &&
			zs_apart("stream", "reqtype") &&
			zs_apart("stream", "udplite") &&
			zs_apart("txwilling", "rxwilling") &&
			zs_apart("txwilling", "reqtype") &&
			zs_apart("txwilling", "udplite") &&
			zs_apart("rxwilling", "reqtype") &&
			zs_apart("rxwilling", "udplite") &&
			zs_apart("reqtype", "udplite")
	})
	zz.Ensures("C02 the fields of a metadata frame share no bits", func() bool {
		return zs_apart("version", "frametype") &&
			zs_apart("version", "descriptor") &&
			zs_apart("version", "transfer") &&
			zs_apart("version", "progress") &&
			zs_apart("version", "reliability") &&
			zs_apart("version", "csumlen") &&
			zs_apart("version", "csumtype") &&
			zs_apart("frametype", "descriptor") &&
			zs_apart("frametype", "transfer") &&
			zs_apart("frametype", "progress") &&
			zs_apart("frametype", "reliability") &&
			zs_apart("frametype", "csumlen") &&
			zs_apart("frametype", "csumtype") &&
			zs_apart("descriptor", "transfer") &&
			zs_apart("descriptor", "progress") &&
			zs_apart("descriptor", "reliability") &&
			zs_apart("descriptor", "csumlen") &&
			zs_apart("descriptor", "csumtype") &&
			zs_apart("transfer", "progress") &&
			zs_apart("transfer", "reliability") &&
			zs_apart("transfer", "csumlen") &&
			zs_apart("transfer", "csumtype") &&
			zs_apart("progress", "reliability") &&
			zs_apart("progress", "csumlen") &&
			zs_apart("progress", "csumtype") &&
			zs_apart("reliability", "csumlen") &&
			zs_apart("reliability", "csumtype") &&
			zs_apart("csumlen", "csumtype")
	})
	zz.Ensures("C02 the fields of a data frame share no bits", func() bool {
		return zs_apart("version", "frametype") &&
			zs_apart("version", "descriptor") &&
			zs_apart("version", "transfer") &&
			zs_apart("version", "reqtstamp") &&
			zs_apart("version", "reqstatus") &&
			zs_apart("version", "eod") &&
			zs_apart("frametype", "descriptor") &&
			zs_apart("frametype", "transfer") &&
			zs_apart("frametype", "reqtstamp") &&
			zs_apart("frametype", "reqstatus") &&
			zs_apart("frametype", "eod") &&
			zs_apart("descriptor", "transfer") &&
			zs_apart("descriptor", "reqtstamp") &&
			zs_apart("descriptor", "reqstatus") &&
			zs_apart("descriptor", "eod") &&
			zs_apart("transfer", "reqtstamp") &&
			zs_apart("transfer", "reqstatus") &&
			zs_apart("transfer", "eod") &&
			zs_apart("reqtstamp", "reqstatus") &&
			zs_apart("reqtstamp", "eod") &&
			zs_apart("reqstatus", "eod")
	})
	zz.Ensures("C02 the fields of a status frame share no bits", func() bool {
		return zs_apart("version", "frametype") &&
			zs_apart("version", "descriptor") &&
			zs_apart("version", "reqtstamp") &&
			zs_apart("version", "metadatarecvd") &&
			zs_apart("version", "allholes") &&
			zs_apart("version", "reqholes") &&
			zs_apart("version", "errcode") &&
			zs_apart("frametype", "descriptor") &&
			zs_apart("frametype", "reqtstamp") &&
			zs_apart("frametype", "metadatarecvd") &&
			zs_apart("frametype", "allholes") &&
			zs_apart("frametype", "reqholes") &&
			zs_apart("frametype", "errcode") &&
			zs_apart("descriptor", "reqtstamp") &&
			zs_apart("descriptor", "metadatarecvd") &&
			zs_apart("descriptor", "allholes") &&
			zs_apart("descriptor", "reqholes") &&
			zs_apart("descriptor", "errcode") &&
			zs_apart("reqtstamp", "metadatarecvd") &&
			zs_apart("reqtstamp", "allholes") &&
			zs_apart("reqtstamp", "reqholes") &&
			zs_apart("reqtstamp", "errcode") &&
			zs_apart("metadatarecvd", "allholes") &&
			zs_apart("metadatarecvd", "reqholes") &&
			zs_apart("metadatarecvd", "errcode") &&
			zs_apart("allholes", "reqholes") &&
			zs_apart("allholes", "errcode") &&
			zs_apart("reqholes", "errcode")
	})
	zz.Ensures("C02 every value fits its field", func() bool {
		return zs_fits(Flags["version"]) && zs_max(Flags["version"]) &&
			zs_fits(Flags["frametype"]) && zs_max(Flags["frametype"]) &&
			zs_fits(Flags["descriptor"]) && zs_max(Flags["descriptor"]) &&
			zs_fits(Flags["stream"]) && zs_max(Flags["stream"]) &&
			zs_fits(Flags["transfer"]) && zs_max(Flags["transfer"]) &&
			zs_fits(Flags["reqtstamp"]) && zs_max(Flags["reqtstamp"]) &&
			zs_fits(Flags["progress"]) && zs_max(Flags["progress"]) &&
			zs_fits(Flags["txwilling"]) && zs_max(Flags["txwilling"]) &&
			zs_fits(Flags["metadatarecvd"]) && zs_max(Flags["metadatarecvd"]) &&
			zs_fits(Flags["allholes"]) && zs_max(Flags["allholes"]) &&
			zs_fits(Flags["reqtype"]) && zs_max(Flags["reqtype"]) &&
			zs_fits(Flags["rxwilling"]) && zs_max(Flags["rxwilling"]) &&
			zs_fits(Flags["reqholes"]) && zs_max(Flags["reqholes"]) &&
			zs_fits(Flags["reqstatus"]) && zs_max(Flags["reqstatus"]) &&
			zs_fits(Flags["udplite"]) && zs_max(Flags["udplite"]) &&
			zs_fits(Flags["eod"]) && zs_max(Flags["eod"]) &&
			zs_fits(Flags["freespace"]) && zs_max(Flags["freespace"]) &&
			zs_fits(Flags["freespaced"]) && zs_max(Flags["freespaced"]) &&
			zs_fits(Flags["csumlen"]) && zs_max(Flags["csumlen"]) &&
			zs_fits(Flags["csumtype"]) && zs_max(Flags["csumtype"]) &&
			zs_fits(Flags["reliability"]) && zs_max(Flags["reliability"]) &&
			zs_fits(Flags["errcode"]) && zs_max(Flags["errcode"])
	})
}

// zs_max: every option fits the field
func zs_max(f Flagtype) bool {
	return zz.ForallKey(func(k string) bool {
		o, ok := f.Options[k]
		return !ok || uint64(o) < uint64(1)<<f.Len
	})
}
