S = "src/engine/Server.cpp"
Q = "src/engine/QueryExecutionTree.cpp"
R = "src/parser/RdfEscaping.cpp"
K = "src/util/Socket.h"
BUGS = [
    ("length of type", S, '     << "Content-Length: " << content.size() << "\\r\\n"\n     << "Connection', '     << "Content-Length: " << contentType.size() << "\\r\\n"\n     << "Connection'),
    ("length plus", S, '     << "Content-Length: " << content.size() << "\\r\\n"\n     << "Connection', '     << "Content-Length: " << content.size() + 2 << "\\r\\n"\n     << "Connection'),
    ("trailing newline", S, '     << content;\n', '     << content << "\\n";\n'),
    ("stale length", S, '  string data = headerStream.str();\n', '  contentString += "\\n";\n  string data = headerStream.str();\n'),
    ("404 body", S, '"HTTP/1.1 404 Not Found\\r\\n"\n     << "Content-Length: 0\\r\\n"\n     << "Connection: close\\r\\n"\n     << "\\r\\n";', '"HTTP/1.1 404 Not Found\\r\\n"\n     << "Content-Length: 0\\r\\n"\n     << "Connection: close\\r\\n"\n     << "\\r\\n" << "404";'),
    ("no blank", S, '     << "Access-Control-Allow-Origin: *"\n     << "\\r\\n"\n     << "\\r\\n"', '     << "Access-Control-Allow-Origin: *"\n     << "\\r\\n"'),
    ("lf only", S, '               << "Connection: close\\r\\n"\n               << "\\r\\n";', '               << "Connection: close\\n"\n               << "\\r\\n";'),
    ("file in header", S, '               << "Content-Type: " << contentType << "\\r\\n"\n               << "Access', '               << "Content-Type: " << contentType << "; name=" << requestedFile << "\\r\\n"\n               << "Access'),
    ("handmade error", S, '  // The query (and thus also the error message) might not be valid UTF-8.\n  return j.dump(4, \' \', false, json::error_handler_t::replace);', '  return "{\\"status\\": \\"ERROR\\", \\"exception\\": \\"" + string(exception.what()) + "\\"}";'),
    ("handmade stats", S, '  return j.dump(0, \' \', false, json::error_handler_t::replace) + \'\\n\';', '  return "{\\"kbindex\\": \\"" + _index.getKbName() + "\\"}";'),
    ("csv tab", S, "composeResponseSepValues(pq, qet, ',')", "composeResponseSepValues(pq, qet, '\\t')"),
    ("tsv type", S, '            "text/tab-separated-values\\r\\n"', '            "text/csv\\r\\n"'),
    ("json type for csv", S, '        contentType =\n            "text/csv\\r\\n"\n            "Content-Disposition: attachment;filename=export.csv";', '        contentType = "application/json";'),
    ("entity raw", Q, "              out << escape(entity);", "              out << entity;"),
    ("value raw", Q, "out << escape(ad_utility::convertIndexWordToValueLiteral(entity));", "out << ad_utility::convertIndexWordToValueLiteral(entity);"),
    ("text raw", Q, "out << escape(_qec->getIndex().getTextExcerpt(data(i, val.first)));", "out << _qec->getIndex().getTextExcerpt(data(i, val.first));"),
    ("local raw", Q, '            out << escape(\n                res->idToOptionalString(data(i, val.first)).value_or(""));', '            out << res->idToOptionalString(data(i, val.first)).value_or("");'),
    ("swap formats", Q, "return sep == ',' ?", "return sep != ',' ?"),
    ("always tsv", Q, "    return sep == ',' ? RdfEscaping::escapeForCsv(field)\n                      : RdfEscaping::escapeForTsv(field);", "    return RdfEscaping::escapeForTsv(field);"),
    ("tab kept", R, "      case '\\t':\n        result += \"\\\\t\";\n        break;\n      case '\\n':\n        result += \"\\\\n\";\n        break;\n      case '\\r':", "      case '\\n':\n        result += \"\\\\n\";\n        break;\n      case '\\r':"),
    ("newline kept", R, '        result += "\\\\n";\n        break;\n      case \'\\r\':', '        result += "\\n";\n        break;\n      case \'\\r\':'),
    ("quote single", R, "    if (c == '\"') {\n      result += '\"';\n    }\n", "    if (c == '\\'') {\n      result += '\"';\n    }\n"),
    ("no newline test", R, 'field.find_first_of("\\",\\r\\n")', 'field.find_first_of("\\",")'),
    ("no comma test", R, 'field.find_first_of("\\",\\r\\n")', 'field.find_first_of("\\"\\r\\n")'),
    ("no end quote", R, "  result += '\"';\n  return result;\n}\n\n// _____________________________________________________________________________\nstd::string escapeForTsv", "  return result;\n}\n\n// _____________________________________________________________________________\nstd::string escapeForTsv"),
    ("no continuation", K, "        return nb + send(data + nb, nofBytes - nb, 5);", "        return nb;"),
    ("rest from start", K, "        return nb + send(data + nb, nofBytes - nb, 5);", "        return nb + send(data, nofBytes - nb, 5);"),
    ("rest size", K, "        return nb + send(data + nb, nofBytes - nb, 5);", "        return nb + send(data + nb, nofBytes, 5);"),
    ("send less", K, "return send(data.c_str(), data.size(), 5);", "return send(data.c_str(), data.size() - 1, 5);"),
    ("strlen", K, "return send(data.c_str(), data.size(), 5);", "return send(data.c_str(), strlen(data.c_str()), 5);"),
]
SAFE = [
    ("string concat", S, '  std::ostringstream os;\n  os << "HTTP/1.1 200 OK\\r\\n"\n     << "Content-Length: " << content.size() << "\\r\\n"\n     << "Connection: close\\r\\n"\n     << "Content-Type: " << contentType << "; charset="\n     << "utf-8"\n     << "\\r\\n"\n     << "Access-Control-Allow-Origin: *"\n     << "\\r\\n"\n     << "\\r\\n"\n     << content;\n  return os.str();',
     '  std::string r = "HTTP/1.1 200 OK\\r\\n";\n  r += "Content-Length: " + std::to_string(content.size()) + "\\r\\n";\n  r += "Connection: close\\r\\nContent-Type: ";\n  r.append(contentType);\n  r += "; charset=utf-8\\r\\nAccess-Control-Allow-Origin: *\\r\\n\\r\\n";\n  return r + content;'),
    ("size variable", S, '  std::ostringstream os;\n  os << "HTTP/1.1 200 OK\\r\\n"\n     << "Content-Length: " << content.size() << "\\r\\n"', '  std::ostringstream os;\n  const auto n = content.size();\n  os << "HTTP/1.1 200 OK\\r\\n"\n     << "Content-Length: " << n << "\\r\\n"'),
    ("header helper", [(S, '// _____________________________________________________________________________\nstring Server::create404HttpResponse() const {', 'static void writeLength(std::ostream& out, const string& s) {\n  out << "Content-Length: " << s.size() << "\\r\\n";\n}\n\nstring Server::create404HttpResponse() const {'),
                       (S, 'string Server::createHttpResponse(const string& content,', 'static void writeLength(std::ostream& out, const string& s);\nstring Server::createHttpResponse(const string& content,'),
                       (S, '  os << "HTTP/1.1 200 OK\\r\\n"\n     << "Content-Length: " << content.size() << "\\r\\n"\n     << "Connection', '  os << "HTTP/1.1 200 OK\\r\\n";\n  writeLength(os, content);\n  os << "Connection')]),
    ("shared empty", [(S, '  std::ostringstream os;\n  os << "HTTP/1.1 404 Not Found\\r\\n"\n     << "Content-Length: 0\\r\\n"\n     << "Connection: close\\r\\n"\n     << "\\r\\n";\n  return os.str();', '  return emptyResponse("404 Not Found");'),
                      (S, 'string Server::createHttpResponse(const string& content,', 'static string emptyResponse(const string& status) {\n  return "HTTP/1.1 " + status + "\\r\\nContent-Length: 0\\r\\nConnection: close\\r\\n\\r\\n";\n}\nstring Server::createHttpResponse(const string& content,')]),
    ("tsv if", R, "    switch (c) {\n      case '\\t':\n        result += \"\\\\t\";\n        break;\n      case '\\n':\n        result += \"\\\\n\";\n        break;\n      case '\\r':\n        result += \"\\\\r\";\n        break;\n      case '\\\\':\n        result += \"\\\\\\\\\";\n        break;\n      default:\n        result += c;\n    }\n",
     "    if (c == '\\t') {\n      result += \"\\\\t\";\n    } else if (c == '\\n') {\n      result.append(\"\\\\n\");\n    } else {\n      result.push_back(c);\n    }\n"),
    ("csv index", R, "  for (char c : field) {\n    if (c == '\"') {\n      result += '\"';\n    }\n    result += c;\n  }\n  result += '\"';", "  for (size_t i = 0; i < field.size(); ++i) {\n    if (field[i] == '\"') {\n      result += \"\\\"\\\"\";\n      continue;\n    }\n    result += field[i];\n  }\n  result += '\"';"),
    ("csv always", R, '  if (field.find_first_of("\\",\\r\\n") == std::string::npos) {\n    return field;\n  }\n', ''),
    ("escape if", Q, "    return sep == ',' ? RdfEscaping::escapeForCsv(field)\n                      : RdfEscaping::escapeForTsv(field);", "    if (sep == ',') {\n      return RdfEscaping::escapeForCsv(field);\n    }\n    return RdfEscaping::escapeForTsv(field);"),
    ("escaped variable", Q, "              out << escape(entity);", "              const string escaped = escape(entity);\n              out << escaped;"),
    ("send loop", K, '''    int nb = ::send(_fd, data, nofBytes, MSG_NOSIGNAL);
    if (nb != static_cast<int>(nofBytes)) {
      LOG(DEBUG) << "Could not send as much data as intended." << std::endl;
      if (nb == -1) {
        LOG(DEBUG) << "Error: " << std::strerror(errno) << std::endl;
        if (errno == 11 && timesRetry > 0) {
          LOG(DEBUG) << "Retrying " << timesRetry-- << " times " << std::endl;
          return send(data, nofBytes, timesRetry);
        }
      } else {
        LOG(DEBUG) << "Nof bytes sent: " << nb << std::endl;
        LOG(DEBUG) << "Calling continuation..." << std::endl;
        return nb + send(data + nb, nofBytes - nb, 5);
      }
    }
    return nb;''', '''    size_t sent = 0;
    while (sent < nofBytes) {
      ssize_t nb = ::send(_fd, data + sent, nofBytes - sent, MSG_NOSIGNAL);
      if (nb == -1) {
        if (errno == 11 && timesRetry-- > 0) {
          continue;
        }
        return -1;
      }
      sent += nb;
    }
    return static_cast<int>(sent);'''),
    ("response inline", S, "        string httpResponse = createHttpResponse(statsJson, contentType);\n        auto bytesSent = client->send(httpResponse);", "        auto bytesSent = client->send(createHttpResponse(statsJson, contentType));"),
]
